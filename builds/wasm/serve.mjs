// node serve.mjs FILE.wasm: runs histories (a line of numbers each) and prints their traces
import fs from "node:fs";
const module = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let instance = null;
function answer(line) {
  const numbers = line.split(" ").map(Number);
  instance ??= new WebAssembly.Instance(module, {});
  const e = instance.exports;
  const at = e.script(numbers.length);
  new Uint32Array(e.memory.buffer, at >>> 0, numbers.length).set(numbers);
  let end = "";
  try {
    e.run();
  } catch (x) {
    end = "panic ";
  }
  const n = e.steps();
  const trace = n == 0 ? [] : Array.from(new BigUint64Array(e.memory.buffer, e.trace() >>> 0, n), (x) => x.toString(16) + " ");
  // memory only ever grows, and a trap leaves it in any state
  if (end || e.memory.buffer.byteLength > 1 << 26) instance = null;
  return trace.join("") + end + "\n";
}
function write(text) {
  const b = Buffer.from(text);
  for (let i = 0; i < b.length; ) {
    try {
      i += fs.writeSync(1, b, i);
    } catch (x) {
      if (x.code != "EAGAIN") throw x;
    }
  }
}
const buffer = Buffer.alloc(1 << 16);
let rest = "";
for (;;) {
  let n;
  try {
    n = fs.readSync(0, buffer);
  } catch (x) {
    if (x.code == "EAGAIN") continue;
    if (x.code == "EOF") break;
    throw x;
  }
  if (n == 0) break;
  rest += buffer.toString("latin1", 0, n);
  for (let i; (i = rest.indexOf("\n")) >= 0; rest = rest.slice(i + 1)) write(answer(rest.slice(0, i)));
}
