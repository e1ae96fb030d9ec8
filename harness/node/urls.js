// Reads [[url, base or null], ...] on stdin; gives the resolved urls, or null.
const chunks = [];
process.stdin.on("data", (c) => chunks.push(c));
process.stdin.on("end", () => {
  const res = JSON.parse(Buffer.concat(chunks).toString("utf8")).map(([u, b]) => { try { return new URL(u, b === null ? undefined : b).href; } catch (e) { return null; } });
  process.stdout.write(JSON.stringify(res));
});
