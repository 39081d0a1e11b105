// Bundles the client's TypeScript and the scripts of its components into one
// CommonJS file; the libraries that are not in this sandbox are stand-ins.
import fs from 'node:fs';
import path from 'node:path';
import { createRequire } from 'node:module';
const [repo, outfile] = process.argv.slice(2);
const here = path.dirname(new URL(import.meta.url).pathname);
const require = createRequire((process.env.MC_NODE_MODULES ?? '/opt/veriftools/node/node_modules') + '/x.js');
const esbuild = require('esbuild');
const sfc = require('@vue/compiler-sfc');
const src = repo + '/web/client/src';
const standins = Object.fromEntries(fs.readdirSync(here + '/standin').map((f) => [f.replace(/\.js$/, ''), `${here}/standin/${f}`]));

function locate(p) {
  for (const q of [p, p + '.ts', p + '.js', p + '.vue', p + '/index.ts', p.replace(/\.js$/, '.ts')])
    if (fs.existsSync(q) && fs.statSync(q).isFile()) return q;
  return p;
}

const plugin = {
  name: 'client',
  setup(build) {
    build.onResolve({ filter: /^@\// }, (a) => ({ path: locate(src + a.path.slice(1)) }));
    build.onResolve({ filter: /^\.\.?\// }, (a) => {
      return { path: locate(path.resolve(a.resolveDir, a.path)) };
    });
    build.onResolve({ filter: /^[^./@]|^@[^/]/ }, (a) => {
      if (a.kind === 'entry-point') return undefined;
      const name = a.path.replace(/\//g, '_');
      if (standins[name]) return { path: standins[name] };
      return { path: a.path, namespace: 'nothing' };
    });
    build.onLoad({ filter: /.*/, namespace: 'nothing' }, () => ({
      contents: 'const f = function () {}; module.exports = new Proxy({}, { get: (_, k) => (k === "__esModule" ? undefined : f) });', loader: 'js'
    }));
    build.onLoad({ filter: /\.css$/ }, () => ({ contents: '', loader: 'js' }));
    build.onLoad({ filter: /\.vue$/ }, (a) => {
      const { descriptor, errors } = sfc.parse(fs.readFileSync(a.path, 'utf8'), { filename: a.path });
      if (errors.length) throw errors[0];
      const s = sfc.compileScript(descriptor, { id: path.basename(a.path), inlineTemplate: false });
      const ts = (s.lang ?? 'js') === 'ts';
      // components that are loaded when they are needed are not loaded
      return { contents: s.content.replace(/(?<![.\w])import\(/g, 'globalThis.mcImport('), loader: ts ? 'ts' : 'js', resolveDir: path.dirname(a.path) };
    });
  }
};

try {
  await esbuild.build({
    stdin: { contents: fs.readFileSync(here + '/entry.ts', 'utf8'), loader: 'ts', resolveDir: here, sourcefile: 'entry.ts' },
    bundle: true, format: 'cjs', platform: 'browser', target: 'es2022', outfile, logLevel: 'silent', plugins: [plugin],
    define: { 'import.meta.env': '{"DEV":false,"PROD":true,"MODE":"production"}', 'import.meta.hot': 'undefined' },
    tsconfigRaw: { compilerOptions: { useDefineForClassFields: true } }
  });
} catch (e) {
  console.log(String(e.message).slice(0, 4000));
  process.exit(1);
}
