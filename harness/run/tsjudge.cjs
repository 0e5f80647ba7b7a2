// Judges TypeScript sources with the TypeScript compiler.  Reads one request
// per line, {src, root, json}, and answers each with one line: the errors in
// the source, its declarations, whether the JSON text may be assigned to the
// type named root, and the values of its constants.
const ts = require('/opt/veriftools/node/node_modules/typescript');
const vm = require('vm');
const lib = ts.createSourceFile('lib.d.ts', `
interface Array<T> { length: number; [n: number]: T; }
interface Boolean { valueOf(): boolean; } interface Function {} interface CallableFunction {} interface NewableFunction {} interface IArguments {}
interface Number { toFixed(): string; } interface Object {} interface RegExp { test(s: string): boolean; } interface String { length: number; charAt(n: number): string; }
type Partial<T> = { [P in keyof T]?: T[P]; };
type Record<K extends keyof any, T> = { [P in K]: T; };
`, ts.ScriptTarget.ES2020, true);
const options = { noLib: true, strict: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, noEmit: true, types: [] };
function check(src) {
  const f = ts.createSourceFile('x.ts', src, ts.ScriptTarget.ES2020, true);
  const host = {
    getSourceFile: n => n === 'lib.d.ts' ? lib : n === 'x.ts' ? f : undefined,
    getDefaultLibFileName: () => 'lib.d.ts', writeFile() {}, getCurrentDirectory: () => '/', getCanonicalFileName: n => n,
    useCaseSensitiveFileNames: () => true, getNewLine: () => '\n', fileExists: n => n === 'x.ts' || n === 'lib.d.ts', readFile: () => undefined,
  };
  const p = ts.createProgram(['lib.d.ts', 'x.ts'], options, host);
  const ds = [...p.getSyntacticDiagnostics(f), ...p.getSemanticDiagnostics(f)];
  return { f, errs: ds.map(d => ts.flattenDiagnosticMessageText(d.messageText, ' ')) };
}
function judge(q) {
  const { f, errs } = check(q.src);
  const a = { errs, decls: [], consts: {} };
  const kinds = { [ts.SyntaxKind.InterfaceDeclaration]: 'interface', [ts.SyntaxKind.TypeAliasDeclaration]: 'type', [ts.SyntaxKind.EnumDeclaration]: 'enum', [ts.SyntaxKind.VariableStatement]: 'const' };
  for (const s of f.statements) {
    const k = kinds[s.kind] || 'other';
    const names = k === 'const' ? s.declarationList.declarations.map(d => d.name.getText()) : [s.name ? s.name.text : ''];
    const x = s.modifiers && s.modifiers.some(m => m.kind === ts.SyntaxKind.ExportKeyword);
    for (const n of names) a.decls.push(k + ' ' + n + (x ? '' : ' private'));
  }
  if (errs.length) return a;
  if (q.root) {
    a.why = check(q.src + '\nconst theData: ' + q.root + ' = ' + q.json + ';\n').errs;
    a.ok = a.why.length === 0;
  }
  const m = { exports: {} };
  vm.runInNewContext(ts.transpileModule(q.src, { compilerOptions: options }).outputText, { exports: m.exports, module: m });
  for (const n of Object.keys(m.exports)) if (a.decls.includes('const ' + n)) a.consts[n] = m.exports[n];
  return a;
}
require('readline').createInterface({ input: process.stdin }).on('line', l => {
  let a;
  try { a = judge(JSON.parse(l)); } catch (e) { a = { crash: String(e && e.stack) }; }
  process.stdout.write(JSON.stringify(a) + '\n');
});
