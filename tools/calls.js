// calls.js DIR NAME...: every call of a function named NAME in the TypeScript sources below DIR, one JSON object a line
const ts = require("/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const path = require("path");
const [dir, ...names] = process.argv.slice(2);
const files = [];
(function walk(d) {
  for (const e of fs.readdirSync(d, { withFileTypes: true })) {
    const p = path.join(d, e.name);
    if (e.isDirectory()) {
      if (!["node_modules", "out", "dist"].includes(e.name)) walk(p);
    } else if (/\.tsx?$/.test(e.name)) files.push(p);
  }
})(dir);
const lit = (n) => {
  while (ts.isParenthesizedExpression(n) || ts.isAsExpression(n)) n = n.expression;
  if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) return n.text;
  if (ts.isBinaryExpression(n) && n.operatorToken.kind === ts.SyntaxKind.PlusToken) {
    const a = lit(n.left), b = lit(n.right);
    return typeof a === "string" && typeof b === "string" ? a + b : null;
  }
  if (ts.isObjectLiteralExpression(n)) return { keys: n.properties.map((p) => (p.name ? p.name.text : "...")) };
  if (ts.isArrayLiteralExpression(n)) return { items: n.elements.map(lit) };
  return null;
};
for (const f of files.sort()) {
  const s = ts.createSourceFile(f, fs.readFileSync(f, "utf8"), ts.ScriptTarget.Latest, true);
  (function visit(n) {
    if (ts.isCallExpression(n)) {
      const e = n.expression;
      const name = ts.isIdentifier(e) ? e.text : ts.isPropertyAccessExpression(e) ? e.name.text : "";
      if (names.includes(name)) {
        const line = s.getLineAndCharacterOfPosition(n.getStart()).line + 1;
        console.log(JSON.stringify({ file: f, line, name, full: e.getText(), args: n.arguments.map(lit) }));
      }
    }
    ts.forEachChild(n, visit);
  })(s);
}
