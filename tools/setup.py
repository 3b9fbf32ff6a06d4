"""Nothing has to be built ahead: make sure that what the checks need is here."""
import shutil, sys
need = ['clang++-18', 'clang-18', 'opt-18', 'c++filt', 'python3', 'cargo', 'rustc', 'node']
miss = [n for n in need if not shutil.which(n)]
if miss: sys.exit('missing: ' + ' '.join(miss))
print('ok')
