// Symbolic values.
//
// Strings: a native JS string in which an "atom token" \uE000<id>\uE001 stands for a symbolic
// piece; native concatenation / template literals therefore work unchanged.
// Numbers: instances of Num (IEEE double terms).
// Formulas: {key, ev(M) -> boolean, smt(enc) -> SMT-LIB boolean term}.
//
// M (a model) is a Map from variable name to a concrete JS string / number.

export const T0 = '\uE000'
export const T1 = '\uE001'
const RE = /\uE000(\d+)\uE001/g

export const isTok = s => typeof s === 'string' && s.indexOf(T0) >= 0

const atoms = [] // id -> atom
const atomByKey = new Map()

/** atom kinds: var{name,max} fn{fn,arg} sub{of,i,j} (characters [i,j) of atom `of`) */
export function atom(key, make) {
	let a = atomByKey.get(key)
	if (!a) {
		a = make()
		a.key = key
		a.id = atoms.length
		a.tok = T0 + a.id + T1
		atoms.push(a)
		atomByKey.set(key, a)
	}
	return a
}
const canonCache = new Map()
/** the text of a token string in which atoms are named by their (worker-independent) keys */
export function canon(s) {
	if (!isTok(s)) return s
	let r = canonCache.get(s)
	if (r === undefined) {
		r = s.replace(RE, (_, id) => `\u2039${atoms[+id].key}\u203a`)
		if (canonCache.size > 200000) canonCache.clear()
		canonCache.set(s, r)
	}
	return r
}
export const varAtom = (name, max) => atom(`var:${name}:${max}`, () => ({ kind: 'var', name, max }))
export const fnAtom = (fn, arg) =>
	atom(`fn:${fn}:${arg instanceof Num ? arg.key : canon(arg)}`, () => ({ kind: 'fn', fn, arg, max: 40 }))
export const subAtom = (of, i, j) =>
	of.kind === 'sub'
		? subAtom(of.of, of.i + i, of.i + j)
		: atom(`sub:${of.key}:${i}:${j}`, () => ({ kind: 'sub', of, i, j, max: j - i }))

const piecesCache = new Map()
/** splits a token string into literal strings and atoms */
export function pieces(s) {
	let r = piecesCache.get(s)
	if (r) return r
	r = []
	let last = 0
	for (const m of s.matchAll(RE)) {
		if (m.index > last) r.push(s.slice(last, m.index))
		r.push(atoms[+m[1]])
		last = m.index + m[0].length
	}
	if (last < s.length) r.push(s.slice(last))
	if (piecesCache.size > 200000) piecesCache.clear()
	piecesCache.set(s, r)
	return r
}
export const unpieces = ps => ps.map(p => (typeof p === 'string' ? p : p.tok)).join('')

// ---------------------------------------------------------------- functions on strings
/** realisations of the uninterpreted / partially interpreted functions, used to evaluate a model */
export const FN = {
	esc: { inj: true, ev: s => JSON.stringify(s).slice(1, -1), emptyIff: true },
	num: { inj: 'num', ev: n => String(n) },
	enc: { inj: true, ev: s => Buffer.from(s, 'utf8').toString('base64'), emptyIff: true },
	dec: { ev: s => Buffer.from(s, 'base64').toString('utf8') },
	lower: { ev: s => s.toLowerCase(), emptyIff: true },
	upper: { ev: s => s.toUpperCase(), emptyIff: true }
}

export function evalStr(s, M) {
	if (!isTok(s)) return s
	return s.replace(RE, (_, id) => evalAtom(atoms[+id], M))
}
function evalAtom(a, M) {
	switch (a.kind) {
		case 'var': {
			const v = M.get(a.name)
			return v === undefined ? '' : v
		}
		case 'sub':
			return evalAtom(a.of, M).slice(a.i, a.j)
		case 'map':
			return a.ev(evalStr(a.arg, M))
		case 'fn':
			return FN[a.fn].ev(a.arg instanceof Num ? a.arg.ev(M) : evalStr(a.arg, M))
	}
}

// ---------------------------------------------------------------- numbers
export class Num {
	/** bits: the IEEE-754 bit pattern (NaN canonical) as a bit-vector term, when one exists without arithmetic */
	constructor(key, ev, smt, bits, inverseOf) {
		this.inverseOf = inverseOf
		this.key = key
		this.ev = ev
		this.smt = smt
		this.bits = bits
		Object.freeze(this)
	}
	[Symbol.toPrimitive](hint) {
		if (hint === 'string') return fnAtom('num', this).tok
		Num.escape('numeric coercion of a symbolic number')
	}
	static escape(m) {
		throw new Error(m)
	}
}
export const isNum = v => v instanceof Num

const f64 = new Float64Array(1)
const u64 = new BigUint64Array(f64.buffer)
export function fpLit(n) {
	if (n !== n) return '(_ NaN 11 53)'
	f64[0] = n
	const b = u64[0].toString(2).padStart(64, '0')
	return `(fp #b${b[0]} #b${b.slice(1, 12)} #b${b.slice(12)})`
}
const numKey = n => (Object.is(n, -0) ? '-0' : String(n))
const bitsOf = n => {
	f64[0] = n !== n ? NaN : n
	return `#x${(n !== n ? 0x7ff8000000000000n : u64[0]).toString(16).padStart(16, '0')}`
}
const POS0 = '#x0000000000000000'
const NEG0 = '#x8000000000000000'
export const numConst = n => new Num(`c:${numKey(n)}`, () => n, enc => (enc.fp(), fpLit(n)), () => bitsOf(n))
export const numVar = name =>
	new Num(
		`v:${name}`,
		M => (M.has(name) ? M.get(name) : 0),
		enc => (enc.fp(), `((_ to_fp 11 53) ${enc.numVar(name)})`),
		enc => enc.numVar(name)
	)
export const toNum = v => (isNum(v) ? v : numConst(v))
const FP = { '+': 'fp.add RNE', '-': 'fp.sub RNE', '*': 'fp.mul RNE', '/': 'fp.div RNE' }
const JSOP = { '+': (a, b) => a + b, '-': (a, b) => a - b, '*': (a, b) => a * b, '/': (a, b) => a / b }
export function numBin(op, a, b) {
	if (!FP[op]) Num.escape(`operator ${op} on a symbolic number`)
	a = toNum(a)
	b = toNum(b)
	// sign changes and the normalisation of -0 need no arithmetic
	let bits
	if (op === '+' && b.key === 'c:0' && a.bits) bits = enc => `(ite (= ${a.bits(enc)} ${NEG0}) ${POS0} ${a.bits(enc)})`
	else if (op === '*' && a.key === 'c:-1' && b.bits) bits = enc => `(ite ${nanBits(b.bits(enc))} ${bitsOf(NaN)} (bvxor ${b.bits(enc)} ${NEG0}))`
	return new Num(
		`(${a.key}${op}${b.key})`,
		M => JSOP[op](a.ev(M), b.ev(M)),
		enc => (enc.fp(), `(${FP[op]} ${a.smt(enc)} ${b.smt(enc)})`),
		bits,
		op === '/' && a.key === 'c:1' ? b : undefined
	)
}

// ---------------------------------------------------------------- formulas
export const TRUE = { key: 'T', ev: () => true, smt: () => 'true' }
export const FALSE = { key: 'F', ev: () => false, smt: () => 'false' }
export const lit = b => (b ? TRUE : FALSE)

/** equality of two token strings; simplifies, may return TRUE / FALSE */
export function strEq(a, b) {
	if (a === b) return TRUE
	if (!isTok(a) && !isTok(b)) return FALSE
	let p = [...pieces(a)]
	let q = [...pieces(b)]
	// strip common prefix
	for (;;) {
		if (!p.length || !q.length) break
		const x = p[0]
		const y = q[0]
		if (x === y) {
			p.shift()
			q.shift()
		} else if (typeof x === 'string' && typeof y === 'string') {
			let n = 0
			while (n < x.length && n < y.length && x[n] === y[n]) n++
			if (n < x.length && n < y.length) return FALSE
			p.shift()
			q.shift()
			if (n < x.length) p.unshift(x.slice(n))
			if (n < y.length) q.unshift(y.slice(n))
		} else break
	}
	for (;;) {
		if (!p.length || !q.length) break
		const x = p[p.length - 1]
		const y = q[q.length - 1]
		if (x === y) {
			p.pop()
			q.pop()
		} else if (typeof x === 'string' && typeof y === 'string') {
			let n = 0
			while (n < x.length && n < y.length && x[x.length - 1 - n] === y[y.length - 1 - n]) n++
			if (n < x.length && n < y.length) return FALSE
			p.pop()
			q.pop()
			if (n < x.length) p.push(x.slice(0, x.length - n))
			if (n < y.length) q.push(y.slice(0, y.length - n))
		} else break
	}
	if (!p.length && !q.length) return TRUE
	if (!p.length || !q.length) {
		const r = p.length ? p : q
		if (r.some(x => typeof x === 'string')) return FALSE
		// every atom empty
		if (r.length === 1 && r[0].kind === 'fn') {
			const F = FN[r[0].fn]
			if (F.emptyIff) return strEq(r[0].arg, '')
			if (r[0].fn === 'num') return FALSE
		}
		if (r.length === 1 && r[0].kind === 'map') return strEq(r[0].arg, '')
	}
	if (p.length === 1 && q.length === 1) {
		let [x] = p
		let [y] = q
		if (typeof x === 'string') [x, y] = [y, x]
		if (x.kind === 'fn') {
			const F = FN[x.fn]
			if (typeof y !== 'string' && y.kind === 'fn' && y.fn === x.fn) {
				if (F.inj === true) return strEq(x.arg, y.arg)
				if (F.inj === 'num') return numSameText(x.arg, y.arg)
			}
			if (typeof y === 'string') {
				if (x.fn === 'esc') {
					let u
					try {
						u = JSON.parse(`"${y}"`)
					} catch {
						return FALSE
					}
					return FN.esc.ev(u) === y ? strEq(x.arg, u) : FALSE
				}
				if (x.fn === 'enc') {
					const u = Buffer.from(y, 'base64').toString('utf8')
					return FN.enc.ev(u) === y ? strEq(x.arg, u) : FALSE
				}
				if (x.fn === 'num') {
					const n = Number(y)
					if (String(n) !== y) return FALSE
					return numSameText(x.arg, numConst(n))
				}
			}
		}
	}
	a = unpieces(p)
	b = unpieces(q)
	if (canon(b) < canon(a)) [a, b] = [b, a]
	return {
		key: `(${canon(a)}=${canon(b)})`,
		ev: M => evalStr(a, M) === evalStr(b, M),
		smt: enc => enc.eq(enc.str(a), enc.str(b))
	}
}
function numSameText(a, b) {
	if (a.key === b.key) return TRUE
	return {
		key: `txt(${a.key},${b.key})`,
		ev: M => String(a.ev(M)) === String(b.ev(M)),
		smt: enc => {
			if (a.bits && b.bits) return svzBits(a.bits(enc), b.bits(enc))
			const x = a.smt(enc)
			const y = b.smt(enc)
			return `(or (fp.eq ${x} ${y}) (and (fp.isNaN ${x}) (fp.isNaN ${y})))`
		}
	}
}
export function startsAt(h, n, p) {
	// does string n occur in h at position p (p: concrete)
	if (!isTok(h) && !isTok(n)) return lit(h.startsWith(n, p) && p + n.length <= h.length)
	if (n === '' ) return p === 0 ? TRUE : lenGe(h, p)
	if (p === 0) {
		const hp = pieces(h)
		if (!isTok(n) && typeof hp[0] === 'string') {
			if (hp[0].startsWith(n)) return TRUE
			if (hp[0].length >= n.length || !n.startsWith(hp[0])) return FALSE
			return startsAt(unpieces(hp.slice(1)), n.slice(hp[0].length), 0)
		}
		// strip identical leading pieces
		const np = pieces(n)
		if (hp.length && np.length && hp[0] === np[0]) return startsAt(unpieces(hp.slice(1)), unpieces(np.slice(1)), 0)
		if (typeof hp[0] === 'string' && typeof np[0] === 'string') {
			const k = Math.min(hp[0].length, np[0].length)
			if (hp[0].slice(0, k) !== np[0].slice(0, k)) return FALSE
			const cut = (x, k) => (x[0].length > k ? [x[0].slice(k), ...x.slice(1)] : x.slice(1))
			return startsAt(unpieces(cut(hp, k)), unpieces(cut(np, k)), 0)
		}
	}
	return {
		key: `at(${canon(h)},${canon(n)},${p})`,
		ev: M => {
			const H = evalStr(h, M)
			const N = evalStr(n, M)
			return p + N.length <= H.length && H.startsWith(N, p)
		},
		smt: enc => enc.startsAt(enc.str(h), enc.str(n), p)
	}
}
export function endsWith(h, n) {
	if (!isTok(h) && !isTok(n)) return lit(h.endsWith(n))
	return {
		key: `ends(${canon(h)},${canon(n)})`,
		ev: M => evalStr(h, M).endsWith(evalStr(n, M)),
		smt: enc => enc.endsWith(enc.str(h), enc.str(n))
	}
}
export function lenGe(s, k) {
	if (k <= 0) return TRUE
	if (!isTok(s)) return lit(s.length >= k)
	return { key: `len(${canon(s)})>=${k}`, ev: M => evalStr(s, M).length >= k, smt: enc => enc.lenGe(enc.str(s), k) }
}
export function lenEq(s, k) {
	if (!isTok(s)) return lit(s.length === k)
	if (k === 0) return strEq(s, '')
	return { key: `len(${canon(s)})=${k}`, ev: M => evalStr(s, M).length === k, smt: enc => enc.lenEq(enc.str(s), k) }
}
export function strLt(a, b) {
	if (!isTok(a) && !isTok(b)) return lit(a < b)
	return { key: `(${canon(a)}<${canon(b)})`, ev: M => evalStr(a, M) < evalStr(b, M), smt: enc => enc.lt(enc.str(a), enc.str(b)) }
}
/** the single code unit at index p of s (p concrete) lies in one of the inclusive ranges */
export function unitIn(s, p, ranges) {
	const test = c => ranges.some(([lo, hi]) => c >= lo && c <= hi)
	if (!isTok(s)) return lit(p < s.length && test(s.charCodeAt(p)))
	return {
		key: `unit(${canon(s)},${p},${ranges.map(r => r.join('-')).join()})`,
		ev: M => {
			const v = evalStr(s, M)
			return p < v.length && test(v.charCodeAt(p))
		},
		smt: enc => enc.unitIn(enc.str(s), p, ranges)
	}
}
/** the last code unit of s lies in the ranges */
export function lastIn(s, ranges) {
	const fs = []
	for (let k = maxLen(s); k >= 1; k--) fs.push(and([lenEq(s, k), unitIn(s, k - 1, ranges)]))
	return or(fs)
}
/** every code unit of s lies in the ranges */
export function allIn(s, ranges) {
	const test = c => ranges.some(([lo, hi]) => c >= lo && c <= hi)
	const ev = v => {
		for (let i = 0; i < v.length; i++) if (!test(v.charCodeAt(i))) return false
		return true
	}
	if (!isTok(s)) return lit(ev(s))
	return {
		key: `all(${canon(s)},${ranges.map(r => r.join('-')).join()})`,
		ev: M => ev(evalStr(s, M)),
		smt: enc => {
			const t = enc.str(s)
			const cs = []
			for (let i = 0; i < t.max; i++) cs.push(`(or (not ${enc.lenGe(t, i + 1)}) ${enc.unitIn(t, i, ranges)})`)
			return cs.length ? `(and true ${cs.join(' ')})` : 'true'
		}
	}
}
export function or(fs) {
	fs = fs.filter(f => f !== FALSE)
	if (fs.includes(TRUE)) return TRUE
	if (!fs.length) return FALSE
	if (fs.length === 1) return fs[0]
	return {
		key: `or[${fs.map(f => f.key).join(';')}]`,
		ev: M => fs.some(f => f.ev(M)),
		smt: enc => `(or ${fs.map(f => f.smt(enc)).join(' ')})`
	}
}
export function and(fs) {
	fs = fs.filter(f => f !== TRUE)
	if (fs.includes(FALSE)) return FALSE
	if (!fs.length) return TRUE
	if (fs.length === 1) return fs[0]
	return {
		key: `and[${fs.map(f => f.key).join(';')}]`,
		ev: M => fs.every(f => f.ev(M)),
		smt: enc => `(and ${fs.map(f => f.smt(enc)).join(' ')})`
	}
}
export function not(f) {
	if (f === TRUE) return FALSE
	if (f === FALSE) return TRUE
	return { key: `not[${f.key}]`, ev: M => !f.ev(M), smt: enc => `(not ${f.smt(enc)})` }
}
function numRel(name, js, smt, bits) {
	return (a, b) => {
		a = toNum(a)
		b = toNum(b)
		return {
			key: `${name}(${a.key},${b.key})`,
			ev: M => js(a.ev(M), b.ev(M)),
			smt: enc => (bits && a.bits && b.bits ? bits(a.bits(enc), b.bits(enc)) : smt(a.smt(enc), b.smt(enc)))
		}
	}
}
const zeroBits = a => `(or (= ${a} ${POS0}) (= ${a} ${NEG0}))`
const nanBits = a => `(= ${a} ${bitsOf(NaN)})`
const svzBits = (a, b) => `(or (= ${a} ${b}) (and ${zeroBits(a)} ${zeroBits(b)}))`
export const numEq = numRel('neq', (a, b) => a === b, (a, b) => `(fp.eq ${a} ${b})`, (a, b) => `(and (not ${nanBits(a)}) ${svzBits(a, b)})`)
export const numIs = (a, b) => {
	if (toNum(a).key === toNum(b).key) return TRUE
	return numRel('nis', Object.is, (a, b) => `(= ${a} ${b})`, (a, b) => `(= ${a} ${b})`)(a, b)
}
export const numSvz = (a, b) => {
	if (toNum(a).key === toNum(b).key) return TRUE
	return numRel(
		'nsvz',
		(a, b) => a === b || (a !== a && b !== b),
		(a, b) => `(or (fp.eq ${a} ${b}) (and (fp.isNaN ${a}) (fp.isNaN ${b})))`,
		svzBits
	)(a, b)
}
const ordBits = a => `(ite (= ((_ extract 63 63) ${a}) #b1) (bvnot ${a}) (bvor ${a} ${NEG0}))`
const ltBits = (a, b) => `(and (not ${nanBits(a)}) (not ${nanBits(b)}) (not (and ${zeroBits(a)} ${zeroBits(b)})) (bvult ${ordBits(a)} ${ordBits(b)}))`
export const numLt = numRel('nlt', (a, b) => a < b, (a, b) => `(fp.lt ${a} ${b})`, ltBits)
export const numLe = numRel(
	'nle',
	(a, b) => a <= b,
	(a, b) => `(fp.leq ${a} ${b})`,
	(a, b) => `(and (not ${nanBits(a)}) (not ${nanBits(b)}) (or ${svzBits(a, b)} ${ltBits(a, b)}))`
)
const numPred = (name, js, smt, bits) => a => ({
	key: `${name}(${a.key})`,
	ev: M => js(a.ev(M)),
	smt: enc => (bits && a.bits ? bits(a.bits(enc)) : smt(a.smt(enc)))
})
export const numTruthy = numPred('ntruthy', a => !!a, a => `(not (or (fp.isNaN ${a}) (fp.isZero ${a})))`, a => `(not (or ${nanBits(a)} ${zeroBits(a)}))`)
export const numIsNaN = numPred('nnan', a => a !== a, a => `(fp.isNaN ${a})`, nanBits)
export const numIsFinite = numPred('nfin', a => Number.isFinite(a), a => `(not (or (fp.isNaN ${a}) (fp.isInfinite ${a})))`, a => `(not (= ((_ extract 62 52) ${a}) #b11111111111))`)
export const numIsInt = numPred(
	'nint',
	a => Number.isInteger(a),
	a => `(and (not (fp.isNaN ${a})) (not (fp.isInfinite ${a})) (fp.eq ${a} (fp.roundToIntegral RTZ ${a})))`
)
/** equalities as they stand, for the solver to discharge without the simplifications above */
export const rawStrEq = (a, b) => ({
	key: `raw(${canon(a)}=${canon(b)})`,
	ev: M => evalStr(a, M) === evalStr(b, M),
	smt: enc => enc.eq(enc.str(a), enc.str(b))
})
export const rawNumEq = (a, b) => ({
	key: `raw(${a.key}=${b.key})`,
	ev: M => Object.is(a.ev(M), b.ev(M)),
	smt: enc => `(= ${a.bits(enc)} ${b.bits(enc)})`
})
/** a finite choice variable */
export const choiceEq = (name, n, k) => ({
	key: `ch(${name}=${k}/${n})`,
	ev: M => (M.has(name) ? M.get(name) : 0) === k,
	smt: enc => `(= ${enc.choice(name, n)} (_ bv${k} 8))`
})

// ---------------------------------------------------------------- charmap atoms
/** a same-length per-code-unit substitution: units in `ranges` become `to` (or, when `to` is a number, are shifted by it) */
export function mapAtom(arg, ranges, to) {
	const test = c => ranges.some(([lo, hi]) => c >= lo && c <= hi)
	const sub = typeof to === 'number' ? c => String.fromCharCode(c + to) : () => to
	const ev = s => {
		let r = ''
		for (let i = 0; i < s.length; i++) r += test(s.charCodeAt(i)) ? sub(s.charCodeAt(i)) : s[i]
		return r
	}
	return atom(`map:${canon(arg)}:${ranges.map(r => r.join('-')).join()}:${to}`, () => ({
		kind: 'map',
		arg,
		ranges,
		to,
		ev,
		max: maxLen(arg)
	}))
}
export function maxLen(s) {
	let n = 0
	for (const p of pieces(s)) n += typeof p === 'string' ? p.length : p.max
	return n
}

// ---------------------------------------------------------------- SMT encoding
const bvLen = n => `(_ bv${n} 8)`
export class Encoder {
	/** emit(cmd): sends a declaration; axiom(text): asserts in the current frame; fp(): a floating-point term is about to be sent */
	constructor(emit, axiom, fp) {
		this.fp = fp
		this.emit = emit
		this.axiom = axiom
		this.declared = new Set()
		this.framed = [new Set()]
		this.cache = new Map()
		this.fnApps = []
		this.capped = 0
		this.names = new Map()
	}
	push() {
		this.framed.push(new Set())
	}
	pop() {
		this.framed.pop()
	}
	inFrame(key) {
		return this.framed.some(s => s.has(key))
	}
	nm(name) {
		let n = this.names.get(name)
		if (!n) this.names.set(name, (n = `x${this.names.size}`))
		return n
	}
	numVar(name) {
		const id = this.nm('n:' + name)
		if (!this.declared.has(id)) {
			this.declared.add(id)
			this.emit(`(declare-const ${id} (_ BitVec 64))`)
		}
		const k = `nx:${id}`
		if (!this.inFrame(k)) {
			// NaN has one representation
			this.framed.at(-1).add(k)
			this.axiom(`(or (not (= ((_ extract 62 52) ${id}) #b11111111111)) (= ((_ extract 51 0) ${id}) #x0000000000000) (= ${id} ${bitsOf(NaN)}))`)
		}
		this.use('n', name, id)
		return id
	}
	choice(name, n) {
		const id = this.nm('c:' + name)
		if (!this.declared.has(id)) {
			this.declared.add(id)
			this.emit(`(declare-const ${id} (_ BitVec 8))`)
		}
		const k = `chx:${id}`
		if (!this.inFrame(k)) {
			this.framed.at(-1).add(k)
			this.axiom(`(bvult ${id} (_ bv${n} 8))`)
		}
		this.use('c', name, id)
		return id
	}
	/** variables mentioned in the current frames: name -> {sort,id} */
	use(sort, name, id, max) {
		const k = `use:${sort}:${name}`
		if (!this.inFrame(k)) {
			this.framed.at(-1).add(k)
			;(this.framed.at(-1).vars ??= []).push({ sort, name, id, max })
		}
	}
	vars() {
		return this.framed.flatMap(f => f.vars ?? [])
	}
	declStr(id, max) {
		if (!this.declared.has(id)) {
			this.declared.add(id)
			this.emit(`(declare-const ${id}_l (_ BitVec 8))`)
			this.emit(`(declare-const ${id}_c (_ BitVec ${16 * Math.max(max, 1)}))`)
		}
		const k = `sx:${id}`
		if (!this.inFrame(k)) {
			this.framed.at(-1).add(k)
			this.axiom(`(bvule ${id}_l ${bvLen(max)})`)
			for (let i = 0; i < Math.max(max, 1); i++) {
				const ch = `((_ extract ${16 * i + 15} ${16 * i}) ${id}_c)`
				this.axiom(`(or (bvugt ${id}_l ${bvLen(i)}) (= ${ch} #x0000))`)
				this.axiom(`(bvult ${ch} #xD800)`)
			}
		}
		return { len: `${id}_l`, c: `${id}_c`, max: Math.max(max, 1), lo: 0 }
	}
	atomTerm(a) {
		switch (a.kind) {
			case 'var': {
				const id = this.nm(`s:${a.name}:${a.max}`)
				const t = this.declStr(id, a.max)
				this.use('s', a.name, id, a.max)
				return t
			}
			case 'sub': {
				const t = this.atomTerm(a.of)
				const n = a.j - a.i
				if (n <= 0) return this.litTerm('')
				return {
					len: bvLen(n),
					exact: n,
					c: `((_ extract ${16 * a.j - 1} ${16 * a.i}) ${this.widen(t, Math.max(t.max, a.j))})`,
					max: n
				}
			}
			case 'map': {
				const t = this.str(a.arg)
				const out = []
				for (let i = t.max - 1; i >= 0; i--) {
					const ch = `((_ extract ${16 * i + 15} ${16 * i}) ${t.c})`
					const cond = `(and (bvugt ${t.len} ${bvLen(i)}) ${inRanges(ch, a.ranges)})`
					const to = typeof a.to === 'number' ? `(bvadd ${ch} ${hex16(a.to & 0xffff)})` : hex16(a.to.charCodeAt(0))
					out.push(`(ite ${cond} ${to} ${ch})`)
				}
				return { len: t.len, exact: t.exact, max: t.max, c: out.length > 1 ? `(concat ${out.join(' ')})` : out[0] }
			}
			case 'fn': {
				const id = this.nm('f:' + a.key)
				const t = this.declStr(id, a.max)
				const k = `fx:${a.id}`
				if (!this.inFrame(k)) {
					this.capped++
					const F = FN[a.fn]
					const peers = this.framed.flatMap(f => f.apps ?? []).filter(b => b.fn === a.fn)
					this.framed.at(-1).add(k)
					;(this.framed.at(-1).apps ??= []).push(a)
					const argEq = (x, y) => (x instanceof Num ? numSameText(x, y) : strEq(x, y)).smt(this)
					for (const b of peers) {
						const e = this.eq(t, this.atomTerm(b))
						this.axiom(`(${F.inj ? '=' : '=>'} ${argEq(a.arg, b.arg)} ${e})`)
					}
					if (F.emptyIff) this.axiom(`(= ${this.eq(t, this.litTerm(''))} ${strEq(a.arg, '').smt(this)})`)
					if (a.fn === 'num') this.axiom(`(not (= ${t.len} ${bvLen(0)}))`)
				}
				return t
			}
		}
	}
	litTerm(s) {
		let c = ''
		for (let i = s.length - 1; i >= 0; i--) c += s.charCodeAt(i).toString(16).padStart(4, '0')
		return { len: bvLen(s.length), exact: s.length, c: c ? `#x${c}` : '#x0000', max: Math.max(s.length, 1) }
	}
	widen(t, max) {
		return t.max >= max ? t.c : `((_ zero_extend ${16 * (max - t.max)}) ${t.c})`
	}
	str(s) {
		const ps = pieces(s)
		if (!ps.length) return this.litTerm('')
		let acc
		for (const p of ps) {
			const t = typeof p === 'string' ? this.litTerm(p) : this.atomTerm(p)
			if (!acc) {
				acc = t
				continue
			}
			const max = acc.max + t.max
			const a = this.widen(acc, max)
			const b = this.widen(t, max)
			const w = 16 * max
			let sh
			if (acc.exact !== undefined) sh = `(_ bv${16 * acc.exact} ${w})`
			else sh = `(bvshl ((_ zero_extend ${w - 8}) ${acc.len}) (_ bv4 ${w}))`
			const len =
				acc.exact !== undefined && t.exact !== undefined ? bvLen(acc.exact + t.exact) : `(bvadd ${acc.len} ${t.len})`
			acc = {
				len,
				exact: acc.exact !== undefined && t.exact !== undefined ? acc.exact + t.exact : undefined,
				max,
				c: `(bvor ${a} (bvshl ${b} ${sh}))`
			}
		}
		return acc
	}
	eq(a, b) {
		if (a.exact !== undefined && b.exact !== undefined && a.exact !== b.exact) return 'false'
		const max = Math.max(a.max, b.max)
		return `(and (= ${a.len} ${b.len}) (= ${this.widen(a, max)} ${this.widen(b, max)}))`
	}
	lenGe(t, k) {
		if (t.exact !== undefined) return t.exact >= k ? 'true' : 'false'
		return k > 255 ? 'false' : `(bvuge ${t.len} ${bvLen(k)})`
	}
	lenEq(t, k) {
		if (t.exact !== undefined) return t.exact === k ? 'true' : 'false'
		return k > 255 ? 'false' : `(= ${t.len} ${bvLen(k)})`
	}
	mask(t, w) {
		// ones in the first t.len units, width w bits
		const sh = `(bvshl ((_ zero_extend ${w - 8}) ${t.len}) (_ bv4 ${w}))`
		return `(bvsub (bvshl (_ bv1 ${w}) ${sh}) (_ bv1 ${w}))`
	}
	startsAt(h, n, p) {
		const max = Math.max(h.max, n.max) + 1
		const w = 16 * max
		const hc = p ? `(bvlshr ${this.widen(h, max)} (_ bv${16 * p} ${w}))` : this.widen(h, max)
		const fit = `(bvule (bvadd ${n.len} ${bvLen(p)}) ${h.len})`
		return `(and ${fit} (= (bvand ${hc} ${this.mask(n, w)}) ${this.widen(n, max)}))`
	}
	endsWith(h, n) {
		const max = Math.max(h.max, n.max) + 1
		const w = 16 * max
		const sh = `(bvshl ((_ zero_extend ${w - 8}) (bvsub ${h.len} ${n.len})) (_ bv4 ${w}))`
		return `(and (bvule ${n.len} ${h.len}) (= (bvlshr ${this.widen(h, max)} ${sh}) ${this.widen(n, max)}))`
	}
	unitIn(t, p, ranges) {
		if (p >= t.max) return 'false'
		const ch = `((_ extract ${16 * p + 15} ${16 * p}) ${t.c})`
		return `(and ${this.lenGe(t, p + 1)} ${inRanges(ch, ranges)})`
	}
	lt(a, b) {
		const max = Math.max(a.max, b.max)
		const x = this.widen(a, max)
		const y = this.widen(b, max)
		let r = `(bvult ${a.len} ${b.len})`
		for (let i = max - 1; i >= 0; i--) {
			const cx = `((_ extract ${16 * i + 15} ${16 * i}) ${x})`
			const cy = `((_ extract ${16 * i + 15} ${16 * i}) ${y})`
			r = `(or (bvult ${cx} ${cy}) (and (= ${cx} ${cy}) ${r}))`
		}
		return r
	}
}
const hex16 = n => `#x${n.toString(16).padStart(4, '0')}`
function inRanges(ch, ranges) {
	const cs = ranges.map(([lo, hi]) =>
		lo === hi ? `(= ${ch} ${hex16(lo)})` : `(and (bvuge ${ch} ${hex16(lo)}) (bvule ${ch} ${hex16(hi)}))`
	)
	return cs.length === 1 ? cs[0] : `(or ${cs.join(' ')})`
}
