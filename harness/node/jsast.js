// Reads {"items": [{"src":..., "out":..., ...}]} on stdin; for each says whether the source is valid and
// whether the served script means the same, comparing syntax trees made by acorn.
const acorn = require(process.env.VPJS_NODE_MODULES + "/acorn");

function parse(text, type) {
  const comments = [];
  const ast = acorn.parse(text, { ecmaVersion: "latest", sourceType: type, onComment: comments, allowHashBang: true, ranges: false, locations: true });
  return { ast, comments };
}

function parseAny(text) {
  try { return { type: "module", ...parse(text, "module") }; } catch (e) {
    try { return { type: "script", ...parse(text, "script") }; } catch (e2) { return { error: String(e), error2: String(e2) }; }
  }
}

let LINES = false;
const SKIP = new Set(["start", "end", "raw", "loc", "range"]);

function isLocal(v) { return /^(\/(?!\/)|\.\/|\.\.\/)/.test(v) && !/[?#]/.test(v); }

// first difference between two trees, or null
function diff(a, b, path, text) {
  if (a === b) return null;
  if (typeof a === "bigint" || typeof b === "bigint") return a === b ? null : path + ": bigint";
  if (typeof a !== typeof b || a === null || b === null) return `${path}: ${show(a)} became ${show(b)}`;
  if (Array.isArray(a)) {
    if (!Array.isArray(b)) return path + ": array";
    if (a.length !== b.length) return `${path}: ${a.length} elements became ${b.length}`;
    for (let i = 0; i < a.length; i++) { const d = diff(a[i], b[i], `${path}[${i}]`); if (d) return d; }
    return null;
  }
  if (typeof a === "object") {
    if (a instanceof RegExp) return null; // pattern and flags are compared
    if (a.type !== b.type) return `${path}: ${a.type} became ${b.type}`;
    if (LINES && a.loc && b.loc && a.loc.start.line !== b.loc.start.line) return `${path}: moved from line ${a.loc.start.line} to ${b.loc.start.line}`;
    const ks = new Set([...Object.keys(a), ...Object.keys(b)]);
    for (const k of ks) {
      if (SKIP.has(k)) continue;
      if (k === "directive") {
        if ((a[k] === "use strict") !== (b[k] === "use strict")) return `${path}: directive ${show(a[k])} became ${show(b[k])}`;
        continue;
      }
      if (a.type === "ImportDeclaration" && k === "source" && isLocal(a.source.value)) {
        if (!/^\/[^?]*\?v=[^&]+&pv=[^&]+$/.test(b.source.value)) {
          if (a.source.value !== b.source.value) return `${path}: import of ${a.source.value} became ${b.source.value}`;
        }
        continue;
      }
      if (a.type === "TemplateElement" && k === "value") {
        if (a.value.raw !== b.value.raw || a.value.cooked !== b.value.cooked) return `${path}: template text ${show(a.value.raw)} became ${show(b.value.raw)}`;
        continue;
      }
      const d = diff(a[k], b[k], `${path}.${k}`);
      if (d) return d;
    }
    return null;
  }
  if (typeof a === "number" && Number.isNaN(a) && Number.isNaN(b)) return null;
  return `${path}: ${show(a)} became ${show(b)}`;
}

function show(v) { try { return String(JSON.stringify(v)).slice(0, 120); } catch (e) { return String(v); } }

function count(node, c) {
  if (!node || typeof node !== "object") return;
  if (Array.isArray(node)) { for (const n of node) count(n, c); return; }
  if (node.type) {
    let t = node.type;
    if (t === "Literal") t = node.regex ? "RegExp" : node.bigint ? "BigInt" : typeof node.value;
    if (t === "BinaryExpression") t += node.operator;
    c[t] = (c[t] || 0) + 1;
  }
  for (const k of Object.keys(node)) if (k !== "value" || node.type !== "Literal") count(node[k], c);
}

function imports(ast, comments) {
  const res = [];
  let last = 0;
  for (const n of ast.body) {
    if (n.type === "ImportDeclaration")
      res.push({ value: n.source.value, clause: n.specifiers.length, start: n.start,
                 marked: comments.some((c) => c.start >= last && c.end <= n.start && c.value.startsWith("PREPROCESSOR: ignore-import")) });
    last = n.end;
  }
  return res;
}

// those of the given lines (from 1) of which something is outside of comments
function bare(text, comments, lines) {
  let t = text;
  for (const c of comments) t = t.slice(0, c.start) + t.slice(c.start, c.end).replace(/[^\n\r\u2028\u2029]/g, " ") + t.slice(c.end);
  const ls = t.split(/\r\n|[\n\r\u2028\u2029]/);
  return lines.filter((n) => n > ls.length || ls[n - 1].trim() !== "");
}

const chunks = [];
process.stdin.on("data", (c) => chunks.push(c));
process.stdin.on("end", () => {
  const inp = JSON.parse(Buffer.concat(chunks).toString("utf8"));
  const out = inp.items.map((it) => {
    const a = parseAny(it.src);
    if (a.error) return { valid: false, why: a.error };
    if (it.out === undefined || it.out === null) return { valid: true, type: a.type, imports: imports(a.ast, a.comments) };
    let b;
    try { b = parse(it.out, a.type); } catch (e) { return { valid: true, type: a.type, diff: "does not parse: " + e }; }
    const kinds = {};
    LINES = !!it.lines;
    count(a.ast, kinds);
    return { valid: true, type: a.type, diff: diff(a.ast, b.ast, "program"), kinds, comments: a.comments.length,
             imports: imports(a.ast, a.comments), outImports: imports(b.ast, b.comments), bareLines: it.hinted ? bare(it.out, b.comments, it.hinted) : [] };
  });
  process.stdout.write(JSON.stringify(out));
});
