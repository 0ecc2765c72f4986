// node engine/replay.mjs <replay file> : runs a reported counterexample on the uninstrumented source; exit 1 when it fails
import { fork } from 'node:child_process'
import fs from 'node:fs'
import os from 'node:os'
import path from 'node:path'
import { buildHarness } from './bundle.mjs'

const v = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'))
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-'))
process.on('exit', () => fs.rmSync(tmp, { recursive: true, force: true }))
const b = await buildHarness(v.harness)
const sym = path.join(tmp, 'sym.js')
const plain = path.join(tmp, 'plain.js')
fs.writeFileSync(sym, b.symCode)
fs.writeFileSync(plain, b.plainCode)
const w = fork(path.join(path.dirname(new URL(import.meta.url).pathname), 'worker.mjs'), [JSON.stringify({ sym, plain, tier: v.tier })], {
	execArgv: ['--stack-size=2000', '--unhandled-rejections=none'],
	stdio: ['ignore', 'ignore', 'inherit', 'ipc']
})
const t = setTimeout(() => {
	console.log('does not terminate')
	w.kill('SIGKILL')
	process.exit(1)
}, 30000)
w.on('message', m => {
	if (m.type === 'ready') w.send({ type: 'replay', scenario: v.scenario, M: v.M })
	if (m.type !== 'replayed') return
	clearTimeout(t)
	console.log(`${v.harness}/${v.scenario} ${JSON.stringify(v.M)}`)
	for (const l of m.trace) console.log(`  ${l}`)
	console.log(`outcome: ${m.outcome}`)
	for (const f of m.failures) console.log(`FAILED: ${f.label} ${f.info ?? ''}`)
	w.kill('SIGKILL')
	process.exit(m.failures.length ? 1 : 0)
})
