// what the declared type of each instruction's accounts admits: {initializePool: {payer: ['Signer'], ...}, ...}
// types.cjs REPO-CLIENT-INDEX STANDINS
const ts = require('typescript');
const path = require('path');
const [index, here] = process.argv.slice(2);
const umi = path.join(here, 'umi.ts');
const program = ts.createProgram([index, umi], {
  noEmit: true,
  strict: true,
  skipLibCheck: true,
  target: ts.ScriptTarget.ES2022,
  module: ts.ModuleKind.CommonJS,
  moduleResolution: ts.ModuleResolutionKind.Node10,
  ignoreDeprecations: '6.0',
  types: [],
  baseUrl: here,
  paths: {
    '@metaplex-foundation/umi/serializers': [path.join(here, 'serializers.ts')],
    '@metaplex-foundation/umi': [umi],
  },
});
const checker = program.getTypeChecker();
const exportsOf = (f) => checker.getExportsOfModule(checker.getSymbolAtLocation(program.getSourceFile(f)));
const declared = Object.fromEntries(exportsOf(umi).map((s) => [s.name, s]));
const kinds = ['Signer', 'PublicKey', 'Pda'].map((n) => [n, checker.getDeclaredTypeOfSymbol(declared[n])]);
const out = {};
for (let s of exportsOf(index)) {
  if (s.flags & ts.SymbolFlags.Alias) s = checker.getAliasedSymbol(s);
  const d = s.valueDeclaration;
  if (!d) continue;
  for (const sig of checker.getTypeOfSymbolAtLocation(s, d).getCallSignatures()) {
    const ret = sig.getReturnType().symbol;
    const input = sig.parameters[1];
    if (!input || !ret || ret.name !== 'TransactionBuilder') continue;
    const acc = (out[s.name] ??= {});
    for (const m of checker.getPropertiesOfType(checker.getTypeOfSymbolAtLocation(input, d))) {
      const t = checker.getTypeOfSymbolAtLocation(m, d);
      acc[m.name] = kinds.filter(([, k]) => checker.isTypeAssignableTo(k, t)).map(([n]) => n);
    }
  }
}
process.stdout.write(JSON.stringify(out));
