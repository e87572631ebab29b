// Executes the scripts of gosec's HTML reports with a minimal stand-in for React and prints what the pages show.
// usage: node render.js FILE    FILE: JSON array of documents; output: JSON array of {text, codes} or {error}
const fs = require("fs"), vm = require("vm");
const ts = require("/opt/veriftools/node/node_modules/typescript");
const cache = new Map();
function compile(src) {
  if (!cache.has(src)) {
    const out = ts.transpileModule(src, { reportDiagnostics: true, compilerOptions: { jsx: ts.JsxEmit.React, target: ts.ScriptTarget.ES2020, allowJs: true }, fileName: "page.jsx" });
    const bad = (out.diagnostics || []).filter(d => d.category === ts.DiagnosticCategory.Error);
    if (bad.length) throw new Error("script does not parse: " + ts.flattenDiagnosticMessageText(bad[0].messageText, " "));
    cache.set(src, out.outputText);
  }
  return cache.get(src);
}
function page(doc) {
  const scripts = [...doc.matchAll(/<script([^>]*)>([\s\S]*?)<\/script>/g)].filter(m => !/\bsrc=/.test(m[1]));
  let root = null;
  const React = {
    createClass: spec => spec,
    createElement: (type, props, ...children) => ({ type, props: Object.assign({}, props, children.length ? { children } : {}) }),
  };
  const ctx = vm.createContext({ React, ReactDOM: { render: el => { root = el; }, findDOMNode: () => ({}) }, hljs: { highlightElement() {}, highlightBlock() {} }, document: { getElementById: () => ({}) }, console });
  ctx.window = ctx;
  for (const s of scripts) vm.runInContext(/text\/babel|text\/jsx/.test(s[1]) ? compile(s[2]) : s[2], ctx);
  if (!root) throw new Error("nothing rendered");
  let text = "";
  const codes = [];
  const walk = n => {
    if (n === null || n === undefined || n === true || n === false) return;
    if (Array.isArray(n)) { n.forEach(walk); return; }
    if (typeof n !== "object") { text += String(n); return; }
    if (typeof n.type === "string") {
      const before = text.length;
      walk(n.props.children);
      if (n.type === "code") codes.push(text.slice(before));
      if (n.type !== "strong" && n.type !== "code") text += "\n";
      return;
    }
    const c = Object.create(n.type);
    c.props = n.props;
    c.state = null;
    c.setState = s => { c.state = Object.assign({}, c.state, s); };
    for (const k of Object.keys(n.type)) if (typeof n.type[k] === "function") c[k] = n.type[k].bind(c);
    c.state = c.getInitialState ? c.getInitialState() : {};
    if (c.componentWillMount) c.componentWillMount();
    walk(c.render());
    if (c.componentDidMount) c.componentDidMount();
  };
  walk(root);
  return { text, codes };
}
const docs = JSON.parse(fs.readFileSync(process.argv[2], "utf8"));
process.stdout.write(JSON.stringify(docs.map(d => { try { return page(d); } catch (e) { return { error: String(e) }; } })));
