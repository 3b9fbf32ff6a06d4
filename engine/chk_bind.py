"""what the bindings contribute to C16 (spelling of effects and path types) and C22 (numeric codes)"""


def names(r, R):
    import build, chk_c, chk_py, chk_node
    chk_py.names(r, R)
    try: C = chk_c.c_codes('devel')
    except build.BuildError: return R.unsure('node', 'watcher-c.h', 'a constant is missing')    # C22 says so
    chk_node.ts_codes(r, R, C, 'name')


def codes(r, R):
    import build, chk_c, chk_py, chk_node
    try: C = chk_c.c_codes('devel')
    except build.BuildError: return
    chk_py.codes(r, R, C)
    chk_node.ts_codes(r, R, C, 'code')
