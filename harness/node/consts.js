// Evaluates modules and describes what they export, exactly.
const fs = require("fs");
const data = JSON.parse(fs.readFileSync(0, "utf8"));
const units = (s) => Array.from({ length: s.length }, (_, i) => s.charCodeAt(i));
function enc(v) {
  if (v === null) return ["null"];
  if (typeof v === "string") return ["s", units(v)];
  if (typeof v === "boolean") return ["b", v];
  if (typeof v === "number") { const b = Buffer.alloc(8); b.writeDoubleBE(v); return ["n", Number.isNaN(v) ? "nan" : b.toString("hex")]; }
  if (Array.isArray(v)) return ["l", Array.from({ length: v.length }, (_, i) => (i in v ? enc(v[i]) : ["hole"]))];
  if (typeof v === "object") {
    if (Object.getPrototypeOf(v) !== Object.prototype) return ["strange prototype"];
    return ["o", Reflect.ownKeys(v).map((k) => [units(String(k)), enc(v[k])])];
  }
  return ["strange", typeof v];
}
(async () => {
  const res = [];
  for (const b of data.items) {
    try {
      const ns = await import("data:text/javascript;base64," + b);
      res.push({ ok: true, values: Object.keys(ns).map((k) => [k, enc(ns[k])]) });
    } catch (e) { res.push({ ok: false, error: String(e) }); }
  }
  process.stdout.write(JSON.stringify(res));
})();
