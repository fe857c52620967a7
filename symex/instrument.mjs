// TypeScript/JavaScript source -> CommonJS -> instrumented CommonJS.
import { createRequire } from "node:module";
const require = createRequire(import.meta.url);
function loadTs() {
  for (const p of ["/opt/veriftools/node/node_modules/typescript", "/repo/node_modules/typescript"]) {
    try { const t = require(p); if (t.transpileModule) return t; } catch {}
  }
  throw new Error("typescript not found");
}
export const ts = loadTs();
const SK = ts.SyntaxKind;
const F = ts.factory;
export const INSTRUMENT_VERSION = "8";

export function toCommonJs(source, fileName) {
  return ts.transpileModule(source, {
    fileName: fileName.replace(/\.mjs$/, ".js"),
    compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.CommonJS, esModuleInterop: true, useDefineForClassFields: false, experimentalDecorators: true, removeComments: true, verbatimModuleSyntax: false, isolatedModules: true },
  }).outputText;
}

const BINOP = new Map([
  [SK.PlusToken, "add"], [SK.MinusToken, "sub"], [SK.AsteriskToken, "mul"], [SK.SlashToken, "div"], [SK.PercentToken, "mod"], [SK.AsteriskAsteriskToken, "pow"],
  [SK.AmpersandToken, "band"], [SK.BarToken, "bor"], [SK.CaretToken, "bxor"], [SK.LessThanLessThanToken, "shl"], [SK.GreaterThanGreaterThanToken, "shr"], [SK.GreaterThanGreaterThanGreaterThanToken, "ushr"],
  [SK.LessThanToken, "lt"], [SK.LessThanEqualsToken, "le"], [SK.GreaterThanToken, "gt"], [SK.GreaterThanEqualsToken, "ge"],
  [SK.EqualsEqualsEqualsToken, "eq"], [SK.ExclamationEqualsEqualsToken, "ne"], [SK.EqualsEqualsToken, "leq"], [SK.ExclamationEqualsToken, "lne"],
]);
const COMPOUND = new Map([
  [SK.PlusEqualsToken, "add"], [SK.MinusEqualsToken, "sub"], [SK.AsteriskEqualsToken, "mul"], [SK.SlashEqualsToken, "div"], [SK.PercentEqualsToken, "mod"], [SK.AsteriskAsteriskEqualsToken, "pow"],
  [SK.AmpersandEqualsToken, "band"], [SK.BarEqualsToken, "bor"], [SK.CaretEqualsToken, "bxor"], [SK.LessThanLessThanEqualsToken, "shl"], [SK.GreaterThanGreaterThanEqualsToken, "shr"], [SK.GreaterThanGreaterThanGreaterThanEqualsToken, "ushr"],
]);
const PURE_METHODS = new Set(["has", "includes", "startsWith", "endsWith", "isInteger", "isSafeInteger", "isFinite", "isNaN", "isArray", "hasOwn", "test", "charCodeAt", "charAt", "at", "min", "max", "abs", "floor", "ceil", "round"]);

export function instrument(js, label) {
  const sf = ts.createSourceFile(label + ".js", js, ts.ScriptTarget.ES2022, true, ts.ScriptKind.JS);
  let tmpCount = 0;
  const fnNames = [];
  // temp declarations per function scope
  const scopes = [];
  const newTmp = () => { const n = "$t" + tmpCount++; scopes[scopes.length - 1].push(n); return n; };
  const id = (n) => F.createIdentifier(n);
  const rt = (name, ...args) => F.createCallExpression(F.createPropertyAccessExpression(id("$"), name), undefined, args);
  const arrow = (e) => F.createArrowFunction(undefined, undefined, [], undefined, F.createToken(SK.EqualsGreaterThanToken), ts.isObjectLiteralExpression(e) ? F.createParenthesizedExpression(e) : e);
  const paren = (e) => F.createParenthesizedExpression(e);
  const assign = (l, r) => F.createBinaryExpression(l, SK.EqualsToken, r);
  const str = (s) => F.createStringLiteral(s);
  const unparen = (n) => { while (ts.isParenthesizedExpression(n)) n = n.expression; return n; };
  const isLit = (n) => { n = unparen(n); return ts.isStringLiteral(n) || ts.isNumericLiteral(n) || n.kind === SK.TrueKeyword || n.kind === SK.FalseKeyword || n.kind === SK.NullKeyword || ts.isNoSubstitutionTemplateLiteral(n) || ts.isRegularExpressionLiteral(n) || n.kind === SK.BigIntLiteral || (ts.isPrefixUnaryExpression(n) && n.operator === SK.MinusToken && ts.isNumericLiteral(n.operand)); };
  const isNullish = (n) => { n = unparen(n); return n.kind === SK.NullKeyword || (ts.isIdentifier(n) && n.text === "undefined") || ts.isVoidExpression(n); };
  const isTypeof = (n) => ts.isTypeOfExpression(unparen(n));

  function pure(n) {
    n = unparen(n);
    if (ts.isIdentifier(n) || isLit(n) || n.kind === SK.ThisKeyword) return true;
    if (ts.isPropertyAccessExpression(n)) return pure(n.expression);
    if (ts.isElementAccessExpression(n)) return pure(n.expression) && pure(n.argumentExpression);
    if (ts.isPrefixUnaryExpression(n)) return n.operator !== SK.PlusPlusToken && n.operator !== SK.MinusMinusToken && pure(n.operand);
    if (ts.isTypeOfExpression(n) || ts.isVoidExpression(n)) return pure(n.expression);
    if (ts.isBinaryExpression(n)) {
      const k = n.operatorToken.kind;
      if (BINOP.has(k) || k === SK.AmpersandAmpersandToken || k === SK.BarBarToken || k === SK.QuestionQuestionToken) return pure(n.left) && pure(n.right);
      return false;
    }
    if (ts.isConditionalExpression(n)) return pure(n.condition) && pure(n.whenTrue) && pure(n.whenFalse);
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && PURE_METHODS.has(n.expression.name.text)) return pure(n.expression.expression) && n.arguments.every((a) => !ts.isSpreadElement(a) && pure(a));
    if (ts.isTemplateExpression(n)) return n.templateSpans.every((s) => pure(s.expression));
    return false;
  }
  // condition known to evaluate to a native value
  function nativeBool(n) {
    n = unparen(n);
    if (n.kind === SK.TrueKeyword || n.kind === SK.FalseKeyword) return true;
    if (ts.isPrefixUnaryExpression(n) && n.operator === SK.ExclamationToken) return nativeBool(n.operand);
    if (ts.isBinaryExpression(n)) {
      const k = n.operatorToken.kind;
      if (k === SK.InstanceOfKeyword) return true;
      if (k === SK.EqualsEqualsEqualsToken || k === SK.ExclamationEqualsEqualsToken || k === SK.EqualsEqualsToken || k === SK.ExclamationEqualsToken) return isNullish(n.left) || isNullish(n.right) || isTypeof(n.left) || isTypeof(n.right);
      if (k === SK.AmpersandAmpersandToken || k === SK.BarBarToken) return nativeBool(n.left) && nativeBool(n.right);
    }
    return false;
  }
  function cond(n) {
    if (nativeBool(n)) return visit(n);
    const inner = unparen(n);
    if (ts.isBinaryExpression(inner)) {
      const k = inner.operatorToken.kind;
      if ((k === SK.AmpersandAmpersandToken || k === SK.BarBarToken) && !pure(inner.right)) {
        return F.createBinaryExpression(wrapParen(cond(inner.left)), inner.operatorToken, wrapParen(cond(inner.right)));
      }
    }
    if (ts.isPrefixUnaryExpression(inner) && inner.operator === SK.ExclamationToken && !pure(inner.operand)) return F.createPrefixUnaryExpression(SK.ExclamationToken, wrapParen(cond(inner.operand)));
    return rt("t", visit(n));
  }
  const wrapParen = (e) => (ts.isBinaryExpression(e) || ts.isConditionalExpression(e) || ts.isArrowFunction(e) || ts.isAwaitExpression(e) || ts.isYieldExpression?.(e) ? paren(e) : e);

  // Chains -----------------------------------------------------------------
  function isChain(n) { return (n.flags & ts.NodeFlags.OptionalChain) !== 0; }
  // flatten a call/access expression into base + links
  function flatten(n, links) {
    if (ts.isPropertyAccessExpression(n) && (isChain(n) || links.chain)) { const b = flattenInner(n.expression, links); links.push({ k: "prop", name: n.name, opt: !!n.questionDotToken }); return b; }
    if (ts.isElementAccessExpression(n)) { const b = flattenInner(n.expression, links); links.push({ k: "elem", arg: n.argumentExpression, opt: !!n.questionDotToken }); return b; }
    if (ts.isCallExpression(n)) { const b = flattenInner(n.expression, links); links.push({ k: "call", args: n.arguments, opt: !!n.questionDotToken }); return b; }
    return n;
  }
  function flattenInner(n, links) {
    if (isChain(n) && (ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n) || ts.isCallExpression(n))) return flatten(n, links);
    if (ts.isNonNullExpression?.(n)) return flattenInner(n.expression, links);
    return n;
  }
  const isSimpleRef = (e) => ts.isIdentifier(e) || e.kind === SK.ThisKeyword;
  function propOf(obj, name) { return F.createPropertyAccessExpression(obj, name); }
  function emitChain(n) {
    const links = []; links.chain = true;
    const base = flatten(n, links);
    // gather
    const go = (cur, curObj, li) => {
      // cur: expression for current value. curObj: {obj, key} when cur is a member reference pending a call
      if (li >= links.length) return finish(cur, curObj);
      const l = links[li];
      if (l.opt) {
        if (l.k === "call") {
          // optional call: need function value
          if (curObj) {
            const o = newTmp(), f = newTmp();
            const getf = curObj.prop ? propOf(paren(assign(id(o), curObj.obj)), curObj.prop) : rt("i", assign(id(o), curObj.obj), curObj.elem);
            const test = F.createBinaryExpression(paren(assign(id(f), getf)), SK.EqualsEqualsToken, F.createNull());
            const isPriv = curObj.prop && ts.isPrivateIdentifier(curObj.prop);
            const call = isPriv || !curObj.prop ? F.createCallExpression(propOf(id(f), "call"), undefined, [id(o), ...visitArgs(l.args)]) : rt("m", id(o), str(curObj.prop.text), F.createArrayLiteralExpression(visitArgs(l.args)));
            return paren(F.createConditionalExpression(test, undefined, F.createVoidZero(), undefined, go(call, null, li + 1)));
          }
          const f = newTmp();
          const test = F.createBinaryExpression(paren(assign(id(f), finish(cur, null))), SK.EqualsEqualsToken, F.createNull());
          return paren(F.createConditionalExpression(test, undefined, F.createVoidZero(), undefined, go(F.createCallExpression(id(f), undefined, visitArgs(l.args)), null, li + 1)));
        }
        const tname = newTmp();
        const test = F.createBinaryExpression(paren(assign(id(tname), finish(cur, curObj))), SK.EqualsEqualsToken, F.createNull());
        const rest = l.k === "prop" ? go(null, { obj: id(tname), prop: l.name }, li + 1) : go(null, { obj: id(tname), elem: visit(l.arg) }, li + 1);
        return paren(F.createConditionalExpression(test, undefined, F.createVoidZero(), undefined, rest));
      }
      if (l.k === "call") {
        if (curObj) {
          if (curObj.prop && ts.isPrivateIdentifier(curObj.prop)) return go(F.createCallExpression(propOf(curObj.obj, curObj.prop), undefined, visitArgs(l.args)), null, li + 1);
          return go(rt("m", curObj.obj, curObj.prop ? str(curObj.prop.text) : curObj.elem, F.createArrayLiteralExpression(visitArgs(l.args))), null, li + 1);
        }
        return go(F.createCallExpression(cur, undefined, visitArgs(l.args)), null, li + 1);
      }
      const v = finish(cur, curObj);
      if (l.k === "prop") return go(null, { obj: v, prop: l.name }, li + 1);
      return go(null, { obj: v, elem: visit(l.arg) }, li + 1);
    };
    const finish = (cur, curObj) => (curObj ? (curObj.prop ? propOf(curObj.obj, curObj.prop) : rt("i", curObj.obj, curObj.elem)) : cur);
    // base
    let b = base;
    const ub = base;
    let cur, curObj = null;
    if (ts.isPropertyAccessExpression(ub) && !isChain(ub) && links[0].k === "call") { curObj = { obj: visit(ub.expression), prop: ub.name }; if (ub.expression.kind === SK.SuperKeyword) { curObj = null; cur = F.createPropertyAccessExpression(ub.expression, ub.name); } }
    else if (ts.isElementAccessExpression(ub) && links[0].k === "call") curObj = { obj: visit(ub.expression), elem: visit(ub.argumentExpression) };
    else cur = ts.isParenthesizedExpression(b) ? paren(visit(b.expression)) : wrapNew(visit(b));
    return go(cur, curObj, 0);
  }
  const wrapNew = (e) => (ts.isFunctionExpression(e) || ts.isArrowFunction(e) || ts.isObjectLiteralExpression(e) || ts.isBinaryExpression(e) || ts.isConditionalExpression(e) || ts.isAwaitExpression(e) ? paren(e) : e);
  const visitArgs = (args) => args.map((a) => (ts.isSpreadElement(a) ? F.createSpreadElement(visit(a.expression)) : visit(a)));

  // assignment target helpers: returns {pre:[exprs], get, set(v)}
  // evaluates the target's object and key before the expression that uses them
  const withPre = (tg, e) => (tg.pre ? paren([...tg.pre, e].reduce((a, b) => F.createBinaryExpression(a, SK.CommaToken, b))) : e);
  function target(n) {
    n = unparen(n);
    if (ts.isIdentifier(n)) return { get: id(n.text), set: (v) => assign(id(n.text), v) };
    if (ts.isPropertyAccessExpression(n)) {
      if (isSimpleRef(n.expression) || n.expression.kind === SK.SuperKeyword) { const o = () => (ts.isIdentifier(n.expression) ? id(n.expression.text) : n.expression); return { get: propOf(o(), n.name), set: (v) => assign(propOf(o(), n.name), n.name.text === "length" ? rt("len", v) : v) }; }
      const o = newTmp();
      return { pre: [assign(id(o), visit(n.expression))], get: propOf(id(o), n.name), set: (v) => assign(propOf(id(o), n.name), n.name.text === "length" ? rt("len", v) : v) };
    }
    if (ts.isElementAccessExpression(n)) {
      const o = newTmp(), k = newTmp();
      return { pre: [assign(id(o), visit(n.expression)), assign(id(k), visit(n.argumentExpression))], get: rt("i", id(o), id(k)), set: (v) => rt("si", id(o), id(k), v) };
    }
    throw new Error("assignment target " + SK[n.kind]);
  }
  function pattern(n) {
    // destructuring assignment target: only visit defaults and computed keys
    if (ts.isArrayLiteralExpression(n)) return F.updateArrayLiteralExpression(n, n.elements.map((e) => (ts.isOmittedExpression(e) ? e : ts.isSpreadElement(e) ? F.createSpreadElement(pattern(e.expression)) : pattern(e))));
    if (ts.isObjectLiteralExpression(n)) return F.updateObjectLiteralExpression(n, n.properties.map((p) => {
      if (ts.isPropertyAssignment(p)) return F.updatePropertyAssignment(p, p.name, pattern(p.initializer));
      if (ts.isShorthandPropertyAssignment(p) && p.objectAssignmentInitializer) return F.updateShorthandPropertyAssignment(p, p.name, visit(p.objectAssignmentInitializer));
      if (ts.isSpreadAssignment(p)) return F.updateSpreadAssignment(p, pattern(p.expression));
      return p;
    }));
    if (ts.isBinaryExpression(n) && n.operatorToken.kind === SK.EqualsToken) return F.createBinaryExpression(pattern(n.left), SK.EqualsToken, visit(n.right));
    if (ts.isElementAccessExpression(n)) return F.createElementAccessExpression(visit(n.expression), rt("idxk", visit(n.argumentExpression)));
    if (ts.isPropertyAccessExpression(n)) return F.createPropertyAccessExpression(visit(n.expression), n.name);
    return n;
  }

  function fnName(node) {
    if (node.name && ts.isIdentifier(node.name)) { const p = node.parent; if (ts.isClassLike?.(p) && p.name) return p.name.text + "." + node.name.text; return node.name.text; }
    if (node.name) { const p = node.parent; const nm = node.name.getText ? node.name.getText(sf) : "?"; return (ts.isClassLike?.(p) && p.name ? p.name.text + "." : "") + nm; }
    if (ts.isConstructorDeclaration(node)) return (node.parent.name ? node.parent.name.text : "class") + ".constructor";
    const p = node.parent;
    if (p && ts.isVariableDeclaration(p) && ts.isIdentifier(p.name)) return p.name.text;
    if (p && ts.isPropertyAssignment(p)) return p.name.getText(sf);
    return null;
  }
  function withScope(f) {
    scopes.push([]);
    const r = f();
    return [r, scopes.pop()];
  }
  function declTemps(names) { return F.createVariableStatement(undefined, F.createVariableDeclarationList(names.map((n) => F.createVariableDeclaration(n)), ts.NodeFlags.None)); }
  function functionBody(node) {
    const name = fnName(node);
    const [body, temps] = withScope(() => {
      if (ts.isBlock(node.body)) return node.body.statements.map(visitStmt);
      return [F.createReturnStatement(visit(node.body))];
    });
    const pre = [];
    // keep directive prologue first
    let k = 0;
    while (k < body.length && ts.isExpressionStatement(body[k]) && ts.isStringLiteral(body[k].expression)) k++;
    if (temps.length) pre.push(declTemps(temps));
    if (name) { fnNames.push(name); pre.push(F.createExpressionStatement(rt("f", F.createElementAccessExpression(id("$fn"), fnNames.length - 1)))); }
    return { stmts: [...body.slice(0, k), ...pre, ...body.slice(k)], temps, name, expr: !ts.isBlock(node.body) && temps.length === 0 && !name };
  }
  function params(ps) { return ps.map((p) => F.updateParameterDeclaration(p, undefined, p.dotDotDotToken, bindingName(p.name), undefined, undefined, p.initializer ? visit(p.initializer) : undefined)); }
  function bindingName(n) {
    if (ts.isIdentifier(n)) return n;
    if (ts.isObjectBindingPattern(n)) return F.updateObjectBindingPattern(n, n.elements.map(bindingEl));
    return F.updateArrayBindingPattern(n, n.elements.map((e) => (ts.isOmittedExpression(e) ? e : bindingEl(e))));
  }
  function bindingEl(e) { return F.updateBindingElement(e, e.dotDotDotToken, e.propertyName && ts.isComputedPropertyName(e.propertyName) ? F.createComputedPropertyName(rt("idxk", visit(e.propertyName.expression))) : e.propertyName, bindingName(e.name), e.initializer ? visit(e.initializer) : undefined); }

  function visitStmt(s) { return ts.visitNode(s, visit); }
  const each = (n) => ts.visitEachChild(n, visit, undefined);

  function visit(n) {
    if (n === undefined) return n;
    switch (n.kind) {
      case SK.ParenthesizedExpression: return F.createParenthesizedExpression(visit(n.expression));
      case SK.BinaryExpression: return visitBinary(n);
      case SK.PrefixUnaryExpression: {
        if (n.operator === SK.ExclamationToken) { if (nativeBool(n.operand)) return F.createPrefixUnaryExpression(SK.ExclamationToken, wrapParen(visit(n.operand))); return rt("not", visit(n.operand)); }
        if (n.operator === SK.MinusToken) return isLit(n.operand) ? n : rt("neg", visit(n.operand));
        if (n.operator === SK.PlusToken) return isLit(n.operand) ? n : rt("pos", visit(n.operand));
        if (n.operator === SK.TildeToken) return rt("bnot", visit(n.operand));
        const tg = target(n.operand);
        return withPre(tg, paren(tg.set(rt(n.operator === SK.PlusPlusToken ? "inc" : "dec", tg.get))));
      }
      case SK.PostfixUnaryExpression: {
        const tg = target(n.operand);
        const op = n.operator === SK.PlusPlusToken ? "inc" : "dec";
        const p = n.parent;
        if (p && (ts.isExpressionStatement(p) || (ts.isForStatement(p) && p.incrementor === n))) return withPre(tg, tg.set(rt(op, tg.get)));
        const t = newTmp();
        return withPre(tg, paren(F.createBinaryExpression(F.createBinaryExpression(assign(id(t), tg.get), SK.CommaToken, tg.set(rt(op, id(t)))), SK.CommaToken, id(t))));
      }
      case SK.TypeOfExpression: {
        const o = unparen(n.expression);
        if (ts.isIdentifier(o)) return paren(F.createConditionalExpression(F.createBinaryExpression(F.createTypeOfExpression(id(o.text)), SK.EqualsEqualsEqualsToken, str("undefined")), undefined, str("undefined"), undefined, rt("ty", id(o.text))));
        return rt("ty", visit(n.expression));
      }
      case SK.DeleteExpression: {
        const o = unparen(n.expression);
        if (ts.isElementAccessExpression(o) && !isChain(o)) return rt("del", visit(o.expression), visit(o.argumentExpression));
        return each(n);
      }
      case SK.ConditionalExpression: {
        if (pure(n.whenTrue) && pure(n.whenFalse) && !nativeBool(n.condition)) return rt("ite", visit(n.condition), arrow(visit(n.whenTrue)), arrow(visit(n.whenFalse)));
        return F.createConditionalExpression(wrapParen(cond(n.condition)), undefined, visit(n.whenTrue), undefined, visit(n.whenFalse));
      }
      case SK.TemplateExpression: return rt("tpl", F.createArrayLiteralExpression([str(n.head.text), ...n.templateSpans.map((s) => str(s.literal.text))]), F.createArrayLiteralExpression(n.templateSpans.map((s) => visit(s.expression))));
      case SK.TaggedTemplateExpression: {
        // visit substitutions only
        if (ts.isNoSubstitutionTemplateLiteral(n.template)) return F.updateTaggedTemplateExpression(n, visit(n.tag), undefined, n.template);
        return F.updateTaggedTemplateExpression(n, visit(n.tag), undefined, F.updateTemplateExpression(n.template, n.template.head, n.template.templateSpans.map((s) => F.updateTemplateSpan(s, visit(s.expression), s.literal))));
      }
      case SK.PropertyAccessExpression: if (isChain(n)) return emitChain(n); return n.expression.kind === SK.SuperKeyword ? n : F.updatePropertyAccessExpression(n, wrapNew(visit(n.expression)), n.name);
      case SK.ElementAccessExpression: if (n.expression.kind === SK.SuperKeyword) return n; return emitChain(n);
      case SK.CallExpression: {
        const e = n.expression;
        if (e.kind === SK.SuperKeyword) return F.updateCallExpression(n, e, undefined, visitArgs(n.arguments));
        if (e.kind === SK.ImportKeyword) return each(n);
        if (isChain(n) || ts.isElementAccessExpression(e)) return emitChain(n);
        if (ts.isPropertyAccessExpression(e)) {
          if (e.expression.kind === SK.SuperKeyword || ts.isPrivateIdentifier(e.name)) return F.updateCallExpression(n, e.expression.kind === SK.SuperKeyword ? e : F.updatePropertyAccessExpression(e, wrapNew(visit(e.expression)), e.name), undefined, visitArgs(n.arguments));
          if (ts.isIdentifier(e.expression) && (e.expression.text === "exports" || e.expression.text === "$")) return F.updateCallExpression(n, e, undefined, visitArgs(n.arguments));
          return rt("m", visit(e.expression), str(e.name.text), F.createArrayLiteralExpression(visitArgs(n.arguments)));
        }
        return F.updateCallExpression(n, wrapNew(visit(e)), undefined, visitArgs(n.arguments));
      }
      case SK.NewExpression: return F.updateNewExpression(n, (() => { const e = visit(n.expression); return ts.isIdentifier(e) || ts.isPropertyAccessExpression(e) ? e : paren(e); })(), undefined, n.arguments ? visitArgs(n.arguments) : []);
      case SK.IfStatement: return F.updateIfStatement(n, cond(n.expression), visitStmt(n.thenStatement), visitStmt(n.elseStatement));
      case SK.WhileStatement: return F.updateWhileStatement(n, rtStep(cond(n.expression)), visitStmt(n.statement));
      case SK.DoStatement: return F.updateDoStatement(n, visitStmt(n.statement), rtStep(cond(n.expression)));
      case SK.ForStatement: return F.updateForStatement(n, visit(n.initializer), n.condition ? rtStep(cond(n.condition)) : rtStep(F.createTrue()), visit(n.incrementor), visitStmt(n.statement));
      case SK.ForInStatement: return F.createForOfStatement(undefined, ts.isVariableDeclarationList(n.initializer) ? n.initializer : n.initializer, rt("forin", visit(n.expression)), visitStmt(n.statement));
      case SK.ForOfStatement: return F.updateForOfStatement(n, n.awaitModifier, ts.isVariableDeclarationList(n.initializer) ? visit(n.initializer) : pattern(n.initializer), visit(n.expression), visitStmt(n.statement));
      case SK.SwitchStatement: {
        const t = newTmp();
        const clauses = n.caseBlock.clauses.map((c) => (ts.isCaseClause(c) ? F.updateCaseClause(c, rt("cs", id(t), visit(c.expression)), c.statements.map(visitStmt)) : F.updateDefaultClause(c, c.statements.map(visitStmt))));
        const sw = F.updateSwitchStatement(n, F.createTrue(), F.updateCaseBlock(n.caseBlock, clauses));
        const set = F.createExpressionStatement(assign(id(t), visit(n.expression)));
        if (n.parent && ts.isLabeledStatement(n.parent)) {
          return F.updateSwitchStatement(n, F.createBinaryExpression(paren(assign(id(t), visit(n.expression))), SK.CommaToken, F.createTrue()), F.updateCaseBlock(n.caseBlock, clauses));
        }
        void set; void sw;
        return F.updateSwitchStatement(n, F.createBinaryExpression(paren(assign(id(t), visit(n.expression))), SK.CommaToken, F.createTrue()), F.updateCaseBlock(n.caseBlock, clauses));
      }
      case SK.CatchClause: {
        const v = n.variableDeclaration;
        const block = n.block.statements.map(visitStmt);
        if (v && ts.isIdentifier(v.name)) return F.updateCatchClause(n, v, F.createBlock([F.createExpressionStatement(rt("ck", id(v.name.text))), ...block], true));
        const t = "$e" + tmpCount++;
        const pre = [F.createExpressionStatement(rt("ck", id(t)))];
        if (v) pre.push(F.createVariableStatement(undefined, F.createVariableDeclarationList([F.createVariableDeclaration(bindingName(v.name), undefined, undefined, id(t))], ts.NodeFlags.Let)));
        return F.updateCatchClause(n, F.createVariableDeclaration(t), F.createBlock([...pre, ...block], true));
      }
      case SK.ComputedPropertyName: return F.createComputedPropertyName(isLit(n.expression) || ts.isPropertyAccessExpression(n.expression) && ts.isIdentifier(n.expression.expression) && n.expression.expression.text === "Symbol" ? n.expression : rt("key", visit(n.expression)));
      case SK.ArrowFunction: {
        const isPure = !ts.isBlock(n.body) && pure(n.body) && !n.modifiers;
        const ps = params(n.parameters);
        const b = functionBody(n);
        const body = b.expr ? (() => { const e = b.stmts[0].expression; return ts.isObjectLiteralExpression(e) ? paren(e) : e; })() : F.createBlock(b.stmts, true);
        const f = F.updateArrowFunction(n, n.modifiers, undefined, ps, undefined, n.equalsGreaterThanToken, body);
        return isPure ? rt("p", f) : f;
      }
      case SK.FunctionExpression: { const ps = params(n.parameters); return F.updateFunctionExpression(n, n.modifiers, n.asteriskToken, n.name, undefined, ps, undefined, F.createBlock(functionBody(n).stmts, true)); }
      case SK.FunctionDeclaration: { if (!n.body) return n; const ps = params(n.parameters); return F.updateFunctionDeclaration(n, n.modifiers, n.asteriskToken, n.name, undefined, ps, undefined, F.createBlock(functionBody(n).stmts, true)); }
      case SK.MethodDeclaration: { if (!n.body) return n; const ps = params(n.parameters); return F.updateMethodDeclaration(n, n.modifiers, n.asteriskToken, visitName(n.name), undefined, undefined, ps, undefined, F.createBlock(functionBody(n).stmts, true)); }
      case SK.Constructor: { if (!n.body) return n; const ps = params(n.parameters); return F.updateConstructorDeclaration(n, n.modifiers, ps, F.createBlock(functionBody(n).stmts, true)); }
      case SK.GetAccessor: { const ps = params(n.parameters); return F.updateGetAccessorDeclaration(n, n.modifiers, visitName(n.name), ps, undefined, F.createBlock(functionBody(n).stmts, true)); }
      case SK.SetAccessor: { const ps = params(n.parameters); return F.updateSetAccessorDeclaration(n, n.modifiers, visitName(n.name), ps, F.createBlock(functionBody(n).stmts, true)); }
      case SK.ClassStaticBlockDeclaration: { const [b, temps] = withScope(() => n.body.statements.map(visitStmt)); return F.updateClassStaticBlockDeclaration(n, F.createBlock(temps.length ? [declTemps(temps), ...b] : b, true)); }
      case SK.VariableDeclaration: return F.updateVariableDeclaration(n, bindingName(n.name), undefined, undefined, n.initializer ? visit(n.initializer) : undefined);
      case SK.PropertyAssignment: return F.updatePropertyAssignment(n, visitName(n.name), visit(n.initializer));
      case SK.Identifier: return n;
      default: return each(n);
    }
  }
  const visitName = (nm) => (ts.isComputedPropertyName(nm) ? visit(nm) : nm);
  const rtStep = (e) => (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression) && e.expression.expression.text === "$" && e.expression.name.text === "t" ? e : rt("t", e));

  function visitBinary(n) {
    const k = n.operatorToken.kind;
    if (k === SK.EqualsToken) {
      const l = unparen(n.left);
      if (ts.isElementAccessExpression(l)) return rt("si", visit(l.expression), visit(l.argumentExpression), visit(n.right));
      if (ts.isArrayLiteralExpression(l) || ts.isObjectLiteralExpression(l)) return assign(pattern(l), visit(n.right));
      if (ts.isPropertyAccessExpression(l)) {
        const r = visit(n.right);
        const tgt = l.expression.kind === SK.SuperKeyword ? l : F.updatePropertyAccessExpression(l, wrapNew(visit(l.expression)), l.name);
        return assign(tgt, l.name.text === "length" ? rt("len", r) : r);
      }
      return assign(l, visit(n.right));
    }
    if (COMPOUND.has(k)) { const tg = target(n.left); return withPre(tg, paren(tg.set(rt(COMPOUND.get(k), tg.get, visit(n.right))))); }
    if (k === SK.BarBarEqualsToken || k === SK.AmpersandAmpersandEqualsToken || k === SK.QuestionQuestionEqualsToken) {
      const tg = target(n.left);
      if (k === SK.QuestionQuestionEqualsToken) return withPre(tg, paren(F.createBinaryExpression(tg.get, SK.QuestionQuestionToken, paren(tg.set(visit(n.right))))));
      const t = newTmp();
      const c = rt("t", assign(id(t), tg.get));
      return withPre(tg, paren(k === SK.BarBarEqualsToken ? F.createConditionalExpression(c, undefined, id(t), undefined, tg.set(visit(n.right))) : F.createConditionalExpression(c, undefined, tg.set(visit(n.right)), undefined, id(t))));
    }
    if (k === SK.AmpersandAmpersandToken || k === SK.BarBarToken) {
      if (nativeBool(n)) return each(n);
      const isAnd = k === SK.AmpersandAmpersandToken;
      if (pure(n.right)) return rt(isAnd ? "and" : "or", visit(n.left), arrow(visit(n.right)));
      if (nativeBool(n.left)) return F.createBinaryExpression(wrapParen(visit(n.left)), n.operatorToken, wrapParen(visit(n.right)));
      const t = newTmp();
      const c = rt("t", assign(id(t), visit(n.left)));
      return paren(isAnd ? F.createConditionalExpression(c, undefined, visit(n.right), undefined, id(t)) : F.createConditionalExpression(c, undefined, id(t), undefined, visit(n.right)));
    }
    if (k === SK.InKeyword) { if (ts.isPrivateIdentifier(n.left)) return each(n); return rt("has", visit(n.left), visit(n.right)); }
    if (BINOP.has(k)) {
      if (k === SK.EqualsEqualsEqualsToken || k === SK.ExclamationEqualsEqualsToken || k === SK.EqualsEqualsToken || k === SK.ExclamationEqualsToken) {
        if (isNullish(n.left) || isNullish(n.right) || isTypeof(n.left) || isTypeof(n.right)) return F.createBinaryExpression(wrapParen(visit(n.left)), n.operatorToken, wrapParen(visit(n.right)));
      }
      if (isLit(n.left) && isLit(n.right)) return n;
      return rt(BINOP.get(k), visit(n.left), visit(n.right));
    }
    return each(n);
  }

  const [stmts, temps] = withScope(() => sf.statements.map(visitStmt));
  let k = 0;
  while (k < stmts.length && ts.isExpressionStatement(stmts[k]) && ts.isStringLiteral(stmts[k].expression)) k++;
  const outSf = F.updateSourceFile(sf, [...stmts.slice(0, k), ...(temps.length ? [declTemps(temps)] : []), ...stmts.slice(k)]);
  const printer = ts.createPrinter({ removeComments: true });
  return { code: printer.printFile(outSf), fnNames };
}
