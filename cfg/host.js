// runs the WebAssembly build of this crate: node host.js cfg.wasm FILE FROM STEP  (answers for the lines of a file)
//                                            node host.js cfg.wasm --text FILE      (the answers for one input, hex)
const fs = require('fs');
const [wasm, file, from, step] = process.argv.slice(2);
const mod = new WebAssembly.Module(fs.readFileSync(wasm));
let x;
const fresh = () => { x = new WebAssembly.Instance(mod, {}).exports; };
fresh();
function put(s) {
  const b = Buffer.from(s, 'latin1');
  const p = x.input(b.length) >>> 0;
  new Uint8Array(x.memory.buffer, p, b.length).set(b);
}
function get(p) {
  const n = x.len() >>> 0;
  return Buffer.from(x.memory.buffer, p >>> 0, n);
}
if (file === '--text') {
  put(fs.readFileSync(from, 'utf8').trim());
  try {
    const p = x.text();
    process.stdout.write(get(p));
  } catch (e) {
    process.stdout.write('base PANIC ' + e + '\n');
  }
} else {
  const k = +from, n = +step;
  let out = [], stops = 0;
  const lines = fs.readFileSync(file, 'latin1').split('\n');
  for (let j = k; j < lines.length; j += n) {
    if (!lines[j]) continue;
    try {
      put(lines[j]);
      const p = x.answer();
      out.push(`${j} ${get(p).toString('latin1')}`);
    } catch (e) {
      out.push(`${j} stopped: ${e}`);
      fresh();
      if (++stops >= 20) break;
    }
    if (out.length > 5000) {
      fs.writeSync(1, out.join('\n') + '\n');
      out = [];
    }
  }
  out.push('done', '');
  fs.writeSync(1, out.join('\n'));
}
