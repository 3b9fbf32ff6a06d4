// prints the syntax tree of a TypeScript file as the small tree absint.py evaluates
const ts = require(process.env.TS_LIB || '/opt/veriftools/node/node_modules/typescript');
const fs = require('fs');
const src = fs.readFileSync(process.argv[2], 'utf8');
const f = ts.createSourceFile(process.argv[2], src, ts.ScriptTarget.ESNext, true);
if (f.parseDiagnostics.length) { console.error(f.parseDiagnostics.map(d => ts.flattenDiagnosticMessageText(d.messageText, '\n')).join('\n')); process.exit(1); }
const K = ts.SyntaxKind;
const K2 = k => K[k];
const BIN = { PlusToken: '+', MinusToken: '-', AsteriskToken: '*', SlashToken: '/', PercentToken: '%', AsteriskAsteriskToken: '**', BarToken: '|', AmpersandToken: '&', CaretToken: '^', LessThanLessThanToken: '<<', GreaterThanGreaterThanToken: '>>', GreaterThanGreaterThanGreaterThanToken: '>>>' };
const CMP = { EqualsEqualsEqualsToken: '===', EqualsEqualsToken: '==', ExclamationEqualsEqualsToken: '!==', ExclamationEqualsToken: '!=', LessThanToken: '<', LessThanEqualsToken: '<=', GreaterThanToken: '>', GreaterThanEqualsToken: '>=', InKeyword: 'in', InstanceOfKeyword: 'instanceof' };
const LOG = { AmpersandAmpersandToken: 'and', BarBarToken: 'or', QuestionQuestionToken: '??' };
const AUG = { PlusEqualsToken: '+', MinusEqualsToken: '-', AsteriskEqualsToken: '*', AmpersandAmpersandEqualsToken: 'and', BarBarEqualsToken: 'or', QuestionQuestionEqualsToken: '??', BarEqualsToken: '|', AmpersandEqualsToken: '&' };
function key(n) {
  if (ts.isIdentifier(n) || ts.isStringLiteral(n) || ts.isNumericLiteral(n) || ts.isPrivateIdentifier(n)) return ['const', n.text];
  if (ts.isComputedPropertyName(n)) return e(n.expression);
  return ['unsup', K2(n.kind)];
}
function pat(n) {
  if (ts.isIdentifier(n)) return ['name', n.text];
  if (ts.isObjectBindingPattern(n)) return ['objpat', n.elements.map(x => [x.dotDotDotToken ? null : (x.propertyName || x.name).text, pat(x.name), x.initializer ? e(x.initializer) : null])];
  if (ts.isArrayBindingPattern(n)) return ['list', n.elements.map(x => ts.isOmittedExpression(x) ? ['hole'] : x.dotDotDotToken ? ['star', pat(x.name)] : pat(x.name))];
  return e(n);
}
function params(ps) {
  return ps.filter(p => p.name.text !== 'this').map(p => p.dotDotDotToken ? ['star', p.name.text] : ts.isIdentifier(p.name) ? ['arg', p.name.text, p.initializer ? e(p.initializer) : null] : ['pat', pat(p.name)]);
}
function fn(n, name) {
  const arrow = ts.isArrowFunction(n);
  const ex = !ts.isBlock(n.body);
  return ['fn', name || (n.name && n.name.text) || '', params(n.parameters), ex ? e(n.body) : body(n.body.statements), ex, 'js', arrow, !!n.asteriskToken];
}
function cls(n) {
  const bases = (n.heritageClauses || []).filter(h => h.token === K.ExtendsKeyword).flatMap(h => h.types.map(t => e(t.expression)));
  const b = [], init = [];
  for (const m of n.members) {
    if (ts.isMethodDeclaration(m) && m.body) b.push(['def', m.name.text, fn(m, m.name.text), m.modifiers && m.modifiers.some(x => x.kind === K.StaticKeyword) ? [['name', 'staticmethod']] : []]);
    else if (ts.isGetAccessor(m)) b.push(['def', m.name.text, fn(m, m.name.text), [['name', 'property']]]);
    else if (ts.isPropertyDeclaration(m)) { if (m.initializer) init.push(['expr', ['assign', ['attr', ['name', 'this'], m.name.text], e(m.initializer)]]); }
    else if (ts.isConstructorDeclaration(m) && m.body) {
      for (const p of m.parameters) if (p.modifiers && p.modifiers.length) init.push(['expr', ['assign', ['attr', ['name', 'this'], p.name.text], ['name', p.name.text]]]);
      b.push(['ctor', m]);
    } else if (!ts.isSemicolonClassElement(m)) b.push(['unsup', K2(m.kind)]);
  }
  let c = b.find(x => x[0] === 'ctor');
  const rest = b.filter(x => x[0] !== 'ctor');
  if (c) rest.push(['def', 'constructor', ['fn', 'constructor', params(c[1].parameters), init.concat(body(c[1].body.statements)), false, 'js', false, false], []]);
  else if (init.length) rest.push(['def', 'constructor', ['fn', 'constructor', [], init, false, 'js', false, false], []]);
  return ['class', n.name ? n.name.text : '', bases, rest, [], []];
}
function args(as) { return as.map(a => ts.isSpreadElement(a) ? ['star', e(a.expression)] : e(a)); }
function e(n) {
  switch (n.kind) {
    case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return ['const', n.text];
    case K.NumericLiteral: return ['const', Number(n.text)];
    case K.BigIntLiteral: return ['const', Number(n.text.slice(0, -1))];
    case K.TrueKeyword: return ['const', true];
    case K.FalseKeyword: return ['const', false];
    case K.NullKeyword: return ['const', null];
    case K.Identifier: return n.text === 'undefined' ? ['undefined'] : ['name', n.text];
    case K.PrivateIdentifier: return ['name', n.text];
    case K.ThisKeyword: return ['name', 'this'];
    case K.SuperKeyword: return ['super'];
    case K.ParenthesizedExpression: case K.AsExpression: case K.NonNullExpression: case K.SatisfiesExpression: case K.TypeAssertionExpression: case K.ExpressionWithTypeArguments: return e(n.expression);
    case K.AwaitExpression: return e(n.expression);
    case K.PropertyAccessExpression: return n.questionDotToken || inchain(n) ? ['attr', e(n.expression), n.name.text, true] : ['attr', e(n.expression), n.name.text];
    case K.ElementAccessExpression: return n.questionDotToken ? ['index', e(n.expression), e(n.argumentExpression), true] : ['index', e(n.expression), e(n.argumentExpression)];
    case K.MetaProperty: return ['name', n.getText()];
    case K.CallExpression: {
      const c = ['call', e(n.expression), args(n.arguments), []];
      if (n.questionDotToken) c.push(true);
      return c;
    }
    case K.NewExpression: return ['new', e(n.expression), args(n.arguments || [])];
    case K.ArrowFunction: case K.FunctionExpression: return fn(n);
    case K.ClassExpression: return cls(n);
    case K.ObjectLiteralExpression: return ['dict', n.properties.map(p => {
      if (ts.isPropertyAssignment(p)) return [key(p.name), e(p.initializer)];
      if (ts.isShorthandPropertyAssignment(p)) return [['const', p.name.text], ['name', p.name.text]];
      if (ts.isMethodDeclaration(p)) return [key(p.name), fn(p)];
      if (ts.isSpreadAssignment(p)) return [null, e(p.expression)];
      return [['const', p.name ? p.name.getText() : ''], ['unsup', K2(p.kind)]];
    }), 'obj'];
    case K.ArrayLiteralExpression: return ['list', n.elements.map(x => ts.isSpreadElement(x) ? ['star', e(x.expression)] : e(x))];
    case K.ConditionalExpression: return ['if', e(n.condition), e(n.whenTrue), e(n.whenFalse)];
    case K.PrefixUnaryExpression: {
      const o = K2(n.operator);
      if (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) return ['aug', n.operator === K.PlusPlusToken ? '+' : '-', e(n.operand), ['const', 1]];
      return ['unary', { [K.ExclamationToken]: '!', [K.MinusToken]: '-', [K.PlusToken]: '+', [K.TildeToken]: '~' }[n.operator], e(n.operand)];
    }
    case K.PostfixUnaryExpression: return ['aug', n.operator === K.PlusPlusToken ? '+' : '-', e(n.operand), ['const', 1]];
    case K.TypeOfExpression: return ['unary', 'typeof', e(n.expression)];
    case K.VoidExpression: return ['unary', 'void', e(n.expression)];
    case K.DeleteExpression: return ['unary', 'delete', e(n.expression)];
    case K.TemplateExpression: {
      const out = [['str', n.head.text]];
      for (const s of n.templateSpans) { out.push(['val', e(s.expression), '', null]); out.push(['str', s.literal.text]); }
      return ['fstr', out];
    }
    case K.RegularExpressionLiteral: { const i = n.text.lastIndexOf('/'); return ['regex', n.text.slice(1, i), n.text.slice(i + 1)]; }
    case K.BinaryExpression: {
      const o = K2(n.operatorToken.kind), t = n.operatorToken.kind;
      if (t === K.EqualsToken) return ['assign', target(n.left), e(n.right)];
      if (t === K.CommaToken) return ['seq', [e(n.left), e(n.right)]];
      const name = Object.keys(K).find(k => K[k] === t && (BIN[k] || CMP[k] || LOG[k] || AUG[k]));
      if (BIN[name]) return ['bin', BIN[name], e(n.left), e(n.right)];
      if (CMP[name]) return ['cmp', e(n.left), [[CMP[name], e(n.right)]]];
      if (LOG[name]) return ['bool', LOG[name], e(n.left), e(n.right)];
      if (AUG[name]) return ['aug', AUG[name], e(n.left), e(n.right)];
      return ['unsup', o];
    }
  }
  return ['unsup', K2(n.kind)];
}
function inchain(n) { return !!(n.flags & ts.NodeFlags.OptionalChain); }
function target(n) {
  if (ts.isObjectLiteralExpression(n) || ts.isArrayLiteralExpression(n)) {
    if (ts.isArrayLiteralExpression(n)) return ['list', n.elements.map(target)];
    return ['objpat', n.properties.map(p => [p.name.text, ts.isPropertyAssignment(p) ? target(p.initializer) : ['name', p.name.text], null])];
  }
  return e(n);
}
function body(ss) { const r = []; const hoisted = []; for (const s of ss) for (const x of st(s)) (x[0] === 'def' ? hoisted : r).push(x); return hoisted.concat(r); }
function blk(s) { return ts.isBlock(s) ? body(s.statements) : body([s]); }
function decls(l) { return l.declarations.map(d => ['let', pat(d.name), d.initializer ? named(d) : null]); }
function named(d) { const x = e(d.initializer); if (x[0] === 'fn' && !x[1] && ts.isIdentifier(d.name)) x[1] = d.name.text; return x; }
function st(n) {
  switch (n.kind) {
    case K.ExpressionStatement: return [['expr', e(n.expression)]];
    case K.VariableStatement: return n.modifiers && n.modifiers.some(m => m.kind === K.DeclareKeyword) ? [] : decls(n.declarationList);
    case K.ReturnStatement: return [['return', n.expression ? e(n.expression) : null]];
    case K.IfStatement: return [['if', e(n.expression), blk(n.thenStatement), n.elseStatement ? blk(n.elseStatement) : []]];
    case K.Block: return [['block', body(n.statements)]];
    case K.ThrowStatement: return [['raise', e(n.expression)]];
    case K.TryStatement: return [['try', blk(n.tryBlock), n.catchClause ? [[null, n.catchClause.variableDeclaration ? pat(n.catchClause.variableDeclaration.name) : null, blk(n.catchClause.block)]] : [], [], n.finallyBlock ? blk(n.finallyBlock) : []]];
    case K.WhileStatement: return [['while', e(n.expression), blk(n.statement), false, null]];
    case K.DoStatement: return [['while', e(n.expression), blk(n.statement), true, null]];
    case K.ForStatement: return [['block', (n.initializer ? (ts.isVariableDeclarationList(n.initializer) ? decls(n.initializer) : [['expr', e(n.initializer)]]) : []).concat([['while', n.condition ? e(n.condition) : ['const', true], blk(n.statement), false, n.incrementor ? e(n.incrementor) : null]])]];
    case K.ForOfStatement: return [['for', ts.isVariableDeclarationList(n.initializer) ? pat(n.initializer.declarations[0].name) : e(n.initializer), e(n.expression), blk(n.statement), [], true]];
    case K.ForInStatement: return [['for', ts.isVariableDeclarationList(n.initializer) ? pat(n.initializer.declarations[0].name) : e(n.initializer), ['call', ['attr', ['name', 'Object'], 'keys'], [e(n.expression)], []], blk(n.statement), [], true]];
    case K.SwitchStatement: return [['switch', e(n.expression), n.caseBlock.clauses.map(c => [c.kind === K.CaseClause ? e(c.expression) : null, body(c.statements)])]];
    case K.BreakStatement: return [['break']];
    case K.ContinueStatement: return [['continue']];
    case K.FunctionDeclaration: return n.body ? [['def', n.name ? n.name.text : 'default', fn(n), []]] : [];
    case K.ClassDeclaration: return [cls(n)];
    case K.EnumDeclaration: return n.modifiers && n.modifiers.some(m => m.kind === K.DeclareKeyword) ? [] : [['enum', n.name.text, n.members.map(m => [m.name.text, m.initializer ? e(m.initializer) : null])]];
    case K.InterfaceDeclaration: case K.TypeAliasDeclaration: case K.EmptyStatement: case K.ExportDeclaration: return [];
    case K.ExportAssignment: return [['let', ['name', 'default'], e(n.expression)]];
    case K.ImportDeclaration: {
      const c = n.importClause, m = n.moduleSpecifier.text, out = [];
      if (c && !c.isTypeOnly) {
        if (c.name) out.push([c.name.text, m + '.default']);
        if (c.namedBindings) {
          if (ts.isNamespaceImport(c.namedBindings)) out.push([c.namedBindings.name.text, m]);
          else for (const x of c.namedBindings.elements) if (!x.isTypeOnly) out.push([x.name.text, m + '.' + (x.propertyName || x.name).text]);
        }
      }
      return [['import', out]];
    }
  }
  return [['unsup', K2(n.kind)]];
}
console.log(JSON.stringify(body(f.statements)));
