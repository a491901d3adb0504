// node parse.cjs BUNDLE ENTRY.ts OUT -> {"bundle": ESTree, "sources": ESTree} written to OUT
const M = process.env.VP_NODE_MODULES || "/opt/veriftools/node/node_modules";
const acorn = require(M + "/acorn"), esbuild = require(M + "/esbuild"), fs = require("fs");
const parse = (text) => acorn.parse(text, { ecmaVersion: "latest", sourceType: "module", locations: true });
const keep = (k, v) => (k === "start" || k === "end" || k === "loc" && false ? undefined : typeof v === "bigint" ? { big: v.toString() } : k === "loc" && v ? v.start.line : v);
const out = { bundle: parse(fs.readFileSync(process.argv[2], "utf8")) };
const r = esbuild.buildSync({ entryPoints: [process.argv[3]], bundle: true, write: false, format: "esm", target: "esnext", logLevel: "silent", tsconfigRaw: "{}", absWorkingDir: require("path").dirname(process.argv[3]) });
out.sources = parse(r.outputFiles[0].text);
fs.writeFileSync(process.argv[4], JSON.stringify(out, keep));
