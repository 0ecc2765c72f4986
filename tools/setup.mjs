// Nothing to build ahead: every check instruments /repo's current source when it runs. Confirms that the tools it needs are there.
import { execFileSync } from 'node:child_process'
import { createRequire } from 'node:module'
const r = createRequire('/opt/veriftools/node/node_modules/')
for (const m of ['typescript', 'esbuild']) r.resolve(m)
console.log(execFileSync('z3', ['--version'], { encoding: 'utf8' }).trim(), process.version)
