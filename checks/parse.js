// Prints the syntax tree of a script, and the functions a TypeScript declaration file declares, as JSON.
'use strict';
const M = '/opt/veriftools/node/node_modules/';
const fs = require('fs'), acorn = require(M + 'acorn'), ts = require(M + 'typescript');
const [script, types] = process.argv.slice(2);
const tree = acorn.parse(fs.readFileSync(script, 'utf8'), { ecmaVersion: 'latest', locations: true });
const d = ts.createSourceFile('a.d.ts', fs.readFileSync(types, 'utf8'), ts.ScriptTarget.Latest, true);
const declared = [];
ts.forEachChild(d, (n) => {
  if (ts.isFunctionDeclaration(n)) {
    declared.push({ name: n.name.text, params: n.parameters.map((p) => [p.type ? p.type.getText() : 'any', !!p.questionToken || !!p.dotDotDotToken]),
                    result: n.type ? n.type.getText() : 'any',
                    line: d.getLineAndCharacterOfPosition(n.getStart()).line + 1 });
  }
});
process.stdout.write(JSON.stringify({ tree, declared }, (k, v) => typeof v === 'bigint' ? String(v) : v));
