// Synchronous incremental SMT solver (z3 -in over named pipes).
import { spawn, execFileSync } from 'node:child_process'
import fs from 'node:fs'
import os from 'node:os'
import path from 'node:path'
import { Encoder } from './terms.mjs'

export class Solver {
	constructor({ bin = 'z3', args = ['-in'], timeoutMs = 20000 } = {}) {
		this.bin = bin
		this.args = args
		this.timeoutMs = timeoutMs
		this.stats = { queries: 0, sat: 0, unsat: 0, unknown: 0, ms: 0, errors: 0, fpSessions: 0 }
		this.depth = 0
		/** everything live: declarations, and the assertions of each open frame */
		this.decls = []
		this.live = [[]]
		this.log = process.env.SMT_LOG ? fs.openSync(process.env.SMT_LOG + '.' + process.pid, 'w') : 0
		this.start(false)
		this.enc = new Encoder(
			t => {
				this.decls.push(t)
				this.send(t)
			},
			t => this.put(t),
			() => {
				if (!this.withFp) this.wantFp = true
			}
		)
	}
	/** opens a solver process; pure bit-vector sessions run z3's incremental SAT core */
	start(withFp) {
		this.withFp = withFp
		this.wantFp = false
		if (withFp) this.stats.fpSessions++
		const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'smt-'))
		const fin = path.join(dir, 'in')
		const fout = path.join(dir, 'out')
		execFileSync('mkfifo', [fin, fout])
		this.child = spawn('sh', ['-c', `exec ${this.bin} ${this.args.join(' ')} < ${fin} > ${fout} 2>&1`], { stdio: 'ignore' })
		this.child.unref()
		this.in = fs.openSync(fin, 'w')
		this.out = fs.openSync(fout, 'r')
		fs.rmSync(dir, { recursive: true })
		this.buf = ''
		this.pending = ''
		if (!withFp) this.send('(set-logic QF_BV)')
		this.send('(set-option :global-declarations true)')
		if (this.bin.startsWith('z3')) this.send(`(set-option :timeout ${this.timeoutMs})`)
		this.send('(set-option :produce-models true)')
	}
	/** floating-point arithmetic appeared: continue in a session that supports it */
	upgrade() {
		try {
			fs.closeSync(this.in)
			fs.closeSync(this.out)
		} catch {}
		this.child.kill('SIGKILL')
		this.start(true)
		for (const d of this.decls) this.send(d)
		this.live.forEach((fr, i) => {
			if (i) this.send('(push 1)')
			for (const t of fr) this.send(`(assert ${t})`)
		})
	}
	put(t) {
		this.live.at(-1).push(t)
		this.send(`(assert ${t})`)
	}
	send(t) {
		this.pending += t + '\n'
		if (this.pending.length > 60000 && !this.wantFp) this.flush()
	}
	flush() {
		if (!this.pending) return
		if (this.log) fs.writeSync(this.log, this.pending)
		const b = Buffer.from(this.pending)
		this.pending = ''
		let o = 0
		while (o < b.length) o += fs.writeSync(this.in, b, o)
	}
	/** reads one balanced s-expression or atom line */
	read() {
		const chunk = Buffer.alloc(65536)
		for (;;) {
			const r = this.take()
			if (r !== undefined) return r
			let n
			try {
				n = fs.readSync(this.out, chunk, 0, chunk.length, null)
			} catch (e) {
				if (e.code === 'EAGAIN') continue
				throw e
			}
			if (n === 0) throw new Error('solver closed its output')
			this.buf += chunk.toString('latin1', 0, n)
		}
	}
	take() {
		let i = 0
		const b = this.buf
		while (i < b.length && /\s/.test(b[i])) i++
		if (i >= b.length) return undefined
		if (b[i] !== '(') {
			const e = b.indexOf('\n', i)
			if (e < 0) return undefined
			this.buf = b.slice(e + 1)
			return b.slice(i, e).trim()
		}
		let d = 0
		let q = false
		for (let j = i; j < b.length; j++) {
			const c = b[j]
			if (q) {
				if (c === '"') q = false
			} else if (c === '"') q = true
			else if (c === '(') d++
			else if (c === ')' && --d === 0) {
				this.buf = b.slice(j + 1)
				return b.slice(i, j + 1)
			}
		}
		return undefined
	}
	push() {
		this.send('(push 1)')
		this.live.push([])
		this.enc.push()
		this.depth++
	}
	pop(n = 1) {
		if (n <= 0) return
		this.send(`(pop ${n})`)
		for (let i = 0; i < n; i++) {
			this.enc.pop()
			this.live.pop()
		}
		this.depth -= n
	}
	assert(f) {
		this.put(f.smt(this.enc))
	}
	check() {
		const t0 = performance.now()
		if (this.wantFp) this.upgrade()
		this.send('(check-sat)')
		this.flush()
		let r = this.read()
		while (r.startsWith('(error')) {
			this.stats.errors++
			this.lastError = r
			r = this.read()
			this.poisoned = true
		}
		if (this.poisoned) {
			this.poisoned = false
			r = 'unknown'
		}
		this.stats.ms += performance.now() - t0
		this.stats.queries++
		if (r !== 'sat' && r !== 'unsat') r = 'unknown'
		this.stats[r]++
		return r
	}
	/** after sat: model of every variable mentioned in the current frames */
	model() {
		const t0 = performance.now()
		const vars = this.enc.vars()
		const M = new Map()
		if (vars.length) {
			const ask = vars.flatMap(v => (v.sort === 's' ? [`${v.id}_l`, `${v.id}_c`] : [v.id]))
			this.send(`(get-value (${ask.join(' ')}))`)
			this.flush()
			const txt = this.read()
			if (txt.startsWith('(error')) {
				this.stats.errors++
				this.lastError = txt
				return undefined
			}
			const vals = parseValues(txt)
			for (const v of vars) {
				if (v.sort === 's') {
					const n = Number(vals.get(`${v.id}_l`))
					const c = vals.get(`${v.id}_c`)
					let s = ''
					for (let i = 0; i < n; i++) s += String.fromCharCode(Number((c >> BigInt(16 * i)) & 0xffffn))
					M.set(v.name, s)
				} else if (v.sort === 'c') M.set(v.name, Number(vals.get(v.id)))
				else M.set(v.name, new Float64Array(new BigUint64Array([vals.get(v.id)]).buffer)[0])
			}
		}
		this.stats.ms += performance.now() - t0
		return M
	}
	close() {
		try {
			this.send('(exit)')
			this.flush()
		} catch {}
		try {
			fs.closeSync(this.in)
			fs.closeSync(this.out)
		} catch {}
		this.child.kill('SIGKILL')
	}
}

function parseValues(txt) {
	const m = new Map()
	const toks = txt.match(/\(|\)|[^\s()]+/g)
	let i = 0
	function sexp() {
		if (toks[i] === '(') {
			i++
			const r = []
			while (toks[i] !== ')') r.push(sexp())
			i++
			return r
		}
		return toks[i++]
	}
	for (const [k, v] of sexp()) m.set(k, value(v))
	return m
}
function value(v) {
	if (typeof v === 'string') {
		if (v.startsWith('#x')) return BigInt('0x' + v.slice(2))
		if (v.startsWith('#b')) return BigInt('0b' + v.slice(2))
		throw new Error('value ' + v)
	}
	if (v[0] === 'fp') {
		const bits = v
			.slice(1)
			.map(x => (x.startsWith('#x') ? BigInt('0x' + x.slice(2)).toString(2).padStart(4 * (x.length - 2), '0') : x.slice(2)))
			.join('')
		const u = new BigUint64Array([BigInt('0b' + bits)])
		return new Float64Array(u.buffer)[0]
	}
	if (v[0] === '_') {
		if (v[1] === 'NaN') return NaN
		if (v[1] === '+zero') return 0
		if (v[1] === '-zero') return -0
		if (v[1] === '+oo') return Infinity
		if (v[1] === '-oo') return -Infinity
		if (v[1].startsWith('bv')) return BigInt(v[1].slice(2))
	}
	throw new Error('value ' + JSON.stringify(v))
}
