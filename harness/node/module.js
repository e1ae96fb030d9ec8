// Evaluates modules given as text; answers what they export.
const fs = require("fs");
const data = JSON.parse(fs.readFileSync(0, "utf8"));
(async () => {
  const res = [];
  for (const t of data.items) {
    try {
      const ns = await import("data:text/javascript;base64," + Buffer.from(t, "utf8").toString("base64"));
      res.push({ ok: true, names: Object.keys(ns), value: ns.default, proto: ns.default !== null && typeof ns.default === "object" && Object.getPrototypeOf(ns.default) === Object.prototype });
    } catch (e) { res.push({ ok: false, error: String(e) }); }
  }
  process.stdout.write(JSON.stringify(res));
})();
