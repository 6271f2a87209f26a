// node tscrel.js pool.txt > matrix: TypeScript's assignability between every two types of the pool
const ts = require("/opt/veriftools/node/node_modules/typescript"), fs = require("fs");
const pool = fs.readFileSync(process.argv[2], "utf8").trim().split("\n");
const src = pool.map((t, i) => `type T${i} = ${t};`).join("\n");
const opts = { strict: true, target: ts.ScriptTarget.ES2022, noEmit: true };
const host = ts.createCompilerHost(opts), get = host.getSourceFile;
host.getSourceFile = (f, v) => f === "/m.ts" ? ts.createSourceFile(f, src, v, true) : get.call(host, f, v);
const fe = host.fileExists; host.fileExists = f => f === "/m.ts" || fe(f);
const prog = ts.createProgram(["/m.ts"], opts, host), c = prog.getTypeChecker();
const sf = prog.getSourceFile("/m.ts");
for (const d of ts.getPreEmitDiagnostics(prog)) console.error(d.start, pool[src.slice(0, d.start).split("\n").length - 1], ts.flattenDiagnosticMessageText(d.messageText, " "));
const tys = sf.statements.map(s => c.getTypeFromTypeNode(s.type));
for (const x of tys) console.log(tys.map(y => c.isTypeAssignableTo(x, y) ? "1" : "0").join(""));
