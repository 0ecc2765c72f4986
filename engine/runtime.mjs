// The symbolic runtime: `$` (operations the instrumented code performs) and `S` (harness API).
import { types } from 'node:util'
import * as T from './terms.mjs'
import { isNum, isTok, Num, strEq } from './terms.mjs'
import { clock } from './clock.mjs'

export class Abort extends Error {
	constructor(kind, detail) {
		super(`${kind}: ${detail ?? ''}`)
		this.kind = kind
		this.detail = detail
	}
}

const isSym = v => isTok(v) || isNum(v)
const isObj = v => (typeof v === 'object' && v !== null) || typeof v === 'function'
const fnToString = Function.prototype.toString
const nativeCache = new WeakMap()
function isNative(f) {
	let r = nativeCache.get(f)
	if (r === undefined) {
		r = !types.isProxy(f) && fnToString.call(f).endsWith('{ [native code] }')
		nativeCache.set(f, r)
	}
	return r
}

/**
 * X: explorer with
 *  decide(formula, hint?) -> boolean, checkF(label, formula, info), abort(kind, detail), P (path)
 */
export function makeRuntime(X) {
	const decide = f => (f === T.TRUE ? true : f === T.FALSE ? false : X.decide(f))
	const eqStr = (a, b) => a === b || (!isTok(a) && !isTok(b) ? false : decide(strEq(a, b)))
	Num.escape = m => X.abort('unmodelled', m)

	// ------------------------------------------------------------ concretisation
	const CONC_LIMIT = 6
	function conc(v, why) {
		if (isNum(v)) {
			for (let i = 0; i < CONC_LIMIT; i++) {
				const k = X.hint(() => v.ev(X.P.M))
				if (X.decide(T.numIs(v, k), k)) {
					X.note('concretised', why)
					return k
				}
			}
			X.abort('concretisation limit', why)
		}
		if (isTok(v)) {
			for (let i = 0; i < CONC_LIMIT; i++) {
				const k = X.hint(() => T.evalStr(v, X.P.M))
				const f = strEq(v, k)
				if (f === T.TRUE) return k
				if (f === T.FALSE) X.abort('concretisation', 'inconsistent model')
				if (X.decide(f, k)) {
					X.note('concretised', why)
					return k
				}
			}
			X.abort('concretisation limit', why)
		}
		return v
	}

	// ------------------------------------------------------------ strings
	function atomLen(a) {
		if (a.kind === 'sub') return a.j - a.i
		if (a.kind === 'map') return len(a.arg)
		const P = X.P
		let n = P.lens.get(a.id)
		if (n !== undefined) return n
		for (let i = 0; i <= a.max; i++) {
			const k = X.hint(() => T.evalStr(a.tok, P.M).length)
			const f = T.lenEq(a.tok, k)
			if (f === T.TRUE || (f !== T.FALSE && X.decide(f, k))) {
				P.lens.set(a.id, k)
				return k
			}
		}
		X.abort('length', a.key)
	}
	function len(s) {
		let n = 0
		for (const p of T.pieces(s)) n += typeof p === 'string' ? p.length : atomLen(p)
		return n
	}
	function sliceAtom(a, i, j) {
		if (i >= j) return ''
		if (a.kind === 'map') return T.mapAtom(slice(a.arg, i, j), a.ranges, a.to).tok
		const n = atomLen(a)
		if (i === 0 && j >= n) return a.tok
		return T.subAtom(a, i, Math.min(j, n)).tok
	}
	/** characters [i, j) ; j may be undefined; 0 <= i */
	function slice(s, i, j) {
		let r = ''
		let at = 0
		for (const p of T.pieces(s)) {
			if (j !== undefined && at >= j) break
			if (typeof p !== 'string' && j === undefined && at >= i) {
				r += p.tok
				at = Math.max(at, i)
				continue
			}
			const n = typeof p === 'string' ? p.length : atomLen(p)
			const from = Math.max(0, i - at)
			const to = j === undefined ? n : Math.min(n, j - at)
			if (from < to) r += typeof p === 'string' ? p.slice(from, to) : sliceAtom(p, from, to)
			at += n
		}
		return r
	}
	const toIdx = v => {
		v = conc(v, 'string index')
		v = Math.trunc(Number(v))
		return v !== v ? 0 : v
	}
	function indexOf(h, n, from = 0) {
		from = Math.max(0, from)
		const hp = T.pieces(h)
		if (!isTok(n) && typeof hp[0] === 'string') {
			const k = hp[0].indexOf(n, from)
			if (k >= 0) return k
		}
		const max = T.maxLen(h)
		const min = T.pieces(n).reduce((a, p) => a + (typeof p === 'string' ? p.length : 0), 0)
		const at = []
		for (let p = from; p + min <= max; p++) at.push(T.startsAt(h, n, p))
		if (!decide(T.or(at))) return -1
		for (let i = 0; i < at.length; i++) if (decide(at[i])) return from + i
		X.abort('infeasible', 'indexOf')
	}
	function lastIndexOf(h, n) {
		const max = T.maxLen(h)
		for (let p = max; p >= 0; p--) if (decide(T.startsAt(h, n, p))) return p
		return -1
	}
	function parseClass(src) {
		// a regex source that is one character class or one escaped/plain character; returns ranges
		const m = /^\[((?:\\.|[^\]\\])*)\]$/.exec(src)
		const one = /^(?:\\([^\w\s]|n|t|s|d|w)|([^\\^$.*+?()[\]{}|]))$/.exec(src)
		if (!m && !one) return undefined
		if (one) return one[2] ? [[one[2].charCodeAt(0), one[2].charCodeAt(0)]] : esc(one[1])
		let body = m[1]
		let neg = false
		if (body[0] === '^') {
			neg = true
			body = body.slice(1)
		}
		const rs = []
		let i = 0
		const next = () => {
			if (body[i] === '\\') {
				i += 2
				return esc(body[i - 1])
			}
			const c = body.charCodeAt(i++)
			return [[c, c]]
		}
		while (i < body.length) {
			const a = next()
			if (!a) return undefined
			if (body[i] === '-' && i + 1 < body.length && a.length === 1 && a[0][0] === a[0][1]) {
				i++
				const b = next()
				rs.push([a[0][0], b[0][0]])
			} else rs.push(...a)
		}
		return neg ? complement(rs) : rs
		function esc(c) {
			const one = n => [[n, n]]
			switch (c) {
				case 'n':
					return one(10)
				case 't':
					return one(9)
				case 'r':
					return one(13)
				case 'd':
					return [[48, 57]]
				case 'w':
					return [[48, 57], [65, 90], [95, 95], [97, 122]]
				case 's':
					return [[9, 13], [32, 32], [160, 160], [0x1680, 0x1680], [0x2000, 0x200a], [0x2028, 0x2029], [0x202f, 0x202f], [0x205f, 0x205f], [0x3000, 0x3000], [0xfeff, 0xfeff]]
			}
			return /\w/.test(c) ? undefined : one(c.charCodeAt(0))
		}
	}
	function complement(rs) {
		rs = [...rs].sort((a, b) => a[0] - b[0])
		const out = []
		let at = 0
		for (const [lo, hi] of rs) {
			if (lo > at) out.push([at, lo - 1])
			at = Math.max(at, hi + 1)
		}
		if (at <= 0xffff) out.push([at, 0xffff])
		return out
	}
	function litRegex(src) {
		// the literal text matched by a metacharacter-free source, else undefined
		let r = ''
		for (let i = 0; i < src.length; i++) {
			const c = src[i]
			if (c === '\\') {
				const d = src[++i]
				if (d === undefined || /\w/.test(d)) return undefined
				r += d
			} else if ('^$.*+?()[]{}|'.includes(c)) return undefined
			else r += c
		}
		return r || undefined
	}
	function expandRep(rep, matched, i, h) {
		if (typeof rep === 'function') return $.tostr(callFn(rep, undefined, [matched, i, h]))
		rep = $.tostr(rep)
		if (isTok(rep)) return rep.includes('$') ? X.abort('unmodelled', 'replacement pattern') : rep
		return rep.replace(/\$([$&])/g, (_, c) => (c === '$' ? '$' : matched))
	}
	function replaceStr(h, n, rep, all) {
		let out = ''
		let rest = h
		let at = 0
		for (let guard = 0; guard < 64; guard++) {
			const k = indexOf(rest, n)
			if (k < 0) return out + rest
			const nl = len(n)
			out += slice(rest, 0, k) + expandRep(rep, n, at + k, h)
			at += k + nl
			rest = slice(rest, k + nl)
			if (!all) return out + rest
			if (nl === 0) X.abort('unmodelled', 'replaceAll of an empty string')
		}
	}
	function regexTest(re, s) {
		const src = re.source
		if (re.flags.replace('g', '').replace('u', '') !== '') return undefined
		let m
		const lit = litRegex(src)
		if (lit) return () => indexOf(s, lit) >= 0
		if (src.startsWith('^') && (m = litRegex(src.slice(1)))) return () => decide(T.startsAt(s, m, 0))
		if (src.endsWith('$') && (m = litRegex(src.slice(0, -1)))) return () => decide(T.endsWith(s, m))
		if (src.startsWith('^') && src.endsWith('$') && (m = litRegex(src.slice(1, -1)))) return () => eqStr(s, m)
		const cls = parseClass(src)
		if (cls) return () => !decide(T.allIn(s, complement(cls)))
		const q = /^\^(.*?)([+*])\$$/.exec(src)
		if (q) {
			const c = parseClass(q[1])
			if (c) return () => decide(T.allIn(s, c)) && (q[2] === '*' || !eqStr(s, ''))
		}
		return undefined
	}
	const STR = {
		toString: s => s,
		valueOf: s => s,
		concat: (s, a) => a.reduce((p, x) => p + $.tostr(x), s),
		startsWith: (s, [n, p]) => decide(T.startsAt(s, $.tostr(n), p === undefined ? 0 : toIdx(p))),
		endsWith: (s, [n, e]) => decide(T.endsWith(e === undefined ? s : slice(s, 0, toIdx(e)), $.tostr(n))),
		includes: (s, [n, p]) => (p === undefined && isTok(n) && s.includes(n)) || indexOf(s, $.tostr(n), p === undefined ? 0 : toIdx(p)) >= 0,
		indexOf: (s, [n, p]) => indexOf(s, $.tostr(n), p === undefined ? 0 : toIdx(p)),
		lastIndexOf: (s, [n]) => lastIndexOf(s, $.tostr(n)),
		charAt(s, [i]) {
			i = toIdx(i)
			return i < 0 ? '' : slice(s, i, i + 1)
		},
		at(s, [i]) {
			i = toIdx(i)
			if (i < 0) i += len(s)
			return i < 0 || i >= len(s) ? undefined : slice(s, i, i + 1)
		},
		charCodeAt(s, [i]) {
			i = toIdx(i)
			const c = i < 0 ? '' : slice(s, i, i + 1)
			return conc(c, 'charCodeAt').charCodeAt(0)
		},
		codePointAt: (s, a) => {
			const r = STR.charCodeAt(s, a)
			return r !== r ? undefined : r
		},
		slice(s, [i, j]) {
			i = i === undefined ? 0 : toIdx(i)
			if (i < 0) i = Math.max(0, len(s) + i)
			if (j !== undefined) {
				j = toIdx(j)
				if (j < 0) j = Math.max(0, len(s) + j)
			}
			return slice(s, i, j)
		},
		substring(s, [i, j]) {
			i = Math.max(0, i === undefined ? 0 : toIdx(i))
			if (j !== undefined) {
				j = Math.max(0, toIdx(j))
				const n = len(s)
				i = Math.min(i, n)
				j = Math.min(j, n)
				if (i > j) [i, j] = [j, i]
			}
			return slice(s, i, j)
		},
		substr(s, [i, n]) {
			i = toIdx(i)
			if (i < 0) i = Math.max(0, len(s) + i)
			return slice(s, i, n === undefined ? undefined : i + Math.max(0, toIdx(n)))
		},
		split(s, [sep, limit]) {
			if (limit !== undefined || sep === undefined || typeof sep !== 'string')
				return X.nativeConc(String.prototype.split, s, [sep, limit])
			if (sep === '') {
				const n = len(s)
				return Array.from({ length: n }, (_, i) => slice(s, i, i + 1))
			}
			const out = []
			let rest = s
			for (let g = 0; g < 64; g++) {
				const k = indexOf(rest, sep)
				if (k < 0) {
					out.push(rest)
					return out
				}
				out.push(slice(rest, 0, k))
				rest = slice(rest, k + len(sep))
			}
		},
		replace(s, [pat, rep]) {
			if (pat instanceof RegExp) {
				const all = pat.flags.includes('g')
				if (/[imsy]/.test(pat.flags)) return undefined
				const lit = litRegex(pat.source)
				if (lit) return replaceStr(s, lit, rep, all)
				const cls = parseClass(pat.source)
				if (cls && all && typeof rep === 'string' && rep.length === 1 && rep !== '$')
					return T.pieces(s)
						.map(p => (typeof p === 'string' ? p.replace(pat, rep) : T.mapAtom(p.tok, cls, rep).tok))
						.join('')
				const start = pat.source.startsWith('^') && litRegex(pat.source.slice(1))
				if (start) return decide(T.startsAt(s, start, 0)) ? expandRep(rep, start, 0, s) + slice(s, start.length) : s
				return undefined
			}
			return replaceStr(s, $.tostr(pat), rep, false)
		},
		replaceAll(s, [pat, rep]) {
			if (pat instanceof RegExp) return STR.replace(s, [pat, rep])
			return replaceStr(s, $.tostr(pat), rep, true)
		},
		toLowerCase: s => mapPieces(s, 'lower', x => x.toLowerCase(), [[65, 90]], 32),
		toUpperCase: s => mapPieces(s, 'upper', x => x.toUpperCase(), [[97, 122]], -32),
		toLocaleLowerCase: s => STR.toLowerCase(s),
		toLocaleUpperCase: s => STR.toUpperCase(s),
		normalize: (s, [f]) => (isTok(s) && f === undefined && decide(T.allIn(s, ASCII)) ? s : undefined),
		trimStart(s) {
			const ws = parseClass('[\\s]')
			while (decide(T.unitIn(s, 0, ws))) s = slice(s, 1)
			return s
		},
		trimEnd(s) {
			const ws = parseClass('[\\s]')
			while (decide(T.lastIn(s, ws))) s = slice(s, 0, len(s) - 1)
			return s
		},
		trim: s => STR.trimEnd(STR.trimStart(s)),
		repeat(s, [n]) {
			return s.repeat(toIdx(n))
		},
		padEnd(s, [n, f = ' ']) {
			const k = toIdx(n) - len(s)
			return k > 0 ? s + f.repeat(Math.ceil(k / f.length)).slice(0, k) : s
		},
		padStart(s, [n, f = ' ']) {
			const k = toIdx(n) - len(s)
			return k > 0 ? f.repeat(Math.ceil(k / f.length)).slice(0, k) + s : s
		},
		localeCompare: undefined
	}
	const ASCII = [[0, 127]]
	function mapPieces(s, fn, lit, ranges, shift) {
		return T.pieces(s)
			.map(p => (typeof p === 'string' ? lit(p) : decide(T.allIn(p.tok, ASCII)) ? T.mapAtom(p.tok, ranges, shift).tok : T.fnAtom(fn, p.tok).tok))
			.join('')
	}
	for (const k of Object.keys(STR)) if (!STR[k]) delete STR[k]

	// ------------------------------------------------------------ property keys
	const ownNames = Object.getOwnPropertyNames
	const hasOwn = (o, k) => Object.prototype.hasOwnProperty.call(o, k)
	function key(k) {
		if (isNum(k)) {
			return T.fnAtom('num', k).tok
		}
		if (isTok(k)) X.P.tokKeys = true
		return k
	}
	/** own key of o equal to k under the path condition, or undefined */
	function resolveOwn(o, k) {
		const tk = isTok(k)
		const names = ownNames(o)
		if (names.includes(k)) return k
		for (const n of names) {
			if ((tk || isTok(n)) && eqStr(k, n)) return n
		}
		return undefined
	}
	/** like resolveOwn but along the prototype chain */
	function resolve(o, k) {
		let p = o
		let first = true
		while (p) {
			if (types.isProxy(p)) return k
			if (first || ownNames(p).some(isTok)) {
				const r = resolveOwn(p, k)
				if (r !== undefined) return r
			} else if (isTok(k)) {
				const max = T.maxLen(k)
				const names = ownNames(p).filter(n => n.length <= max)
				const fs = names.map(n => strEq(k, n))
				if (decide(T.or(fs))) {
					for (let i = 0; i < names.length; i++) if (decide(fs[i])) return names[i]
					X.abort('infeasible', 'prototype key')
				}
			} else if (hasOwn(p, k)) return k
			first = false
			p = Object.getPrototypeOf(p)
		}
		return undefined
	}
	/** whether an access to key k on o needs resolution */
	function hard(o, k) {
		if (!X.P.tokKeys || typeof k === 'symbol') return false
		if (!isObj(o) || types.isProxy(o)) return false
		if (isTok(k)) return true
		if (typeof k !== 'string') return false
		for (let p = o; p && !types.isProxy(p); p = Object.getPrototypeOf(p)) {
			for (const n of ownNames(p)) if (n.charCodeAt(0) === 0xe000 || isTok(n)) return true
			if (p === Object.prototype || p === Function.prototype || p === Array.prototype) break
		}
		return false
	}

	// ------------------------------------------------------------ equality
	function same(a, b, num) {
		if (typeof a === 'string' && typeof b === 'string') return eqStr(a, b)
		if (isNum(a) || isNum(b)) {
			if ((isNum(a) || typeof a === 'number') && (isNum(b) || typeof b === 'number')) return decide(num(a, b))
			return false
		}
		return undefined
	}
	/** `1/x === 1/y` once x === y holds: only the sign of zero is left to tell */
	const inverses = (a, b) => isNum(a) && isNum(b) && a.inverseOf && b.inverseOf && X.P.decided.get(T.numEq(a.inverseOf, b.inverseOf).key) === true
	const strictEq = (a, b) =>
		inverses(a, b) ? decide(T.numIs(a.inverseOf, b.inverseOf)) : same(a, b, T.numEq) ?? a === b
	const sameValue = (a, b) => same(a, b, T.numIs) ?? Object.is(a, b)
	const sameValueZero = (a, b) => same(a, b, T.numSvz) ?? (a === b || (a !== a && b !== b))

	// ------------------------------------------------------------ operations
	const $ = {
		loop() {
			if (++X.P.steps > X.loopBudget) X.abort('loop budget', '')
			if (X.P.aborted) throw X.P.aborted
		},
		t(v) {
			if (v === '' || v === true || v === false || v === undefined || v === null) return !!v
			if (isTok(v)) return !eqStr(v, '')
			if (isNum(v)) return decide(T.numTruthy(v))
			return !!v
		},
		typeof(v) {
			return isNum(v) ? 'number' : typeof v
		},
		seq: strictEq,
		sne: (a, b) => !strictEq(a, b),
		leq(a, b) {
			if (a == null || b == null) return a == b
			const r = same(a, b, T.numEq)
			if (r !== undefined && typeof a === typeof b) return r
			if (isSym(a) || isSym(b)) {
				if (typeof $.typeof(a) === typeof $.typeof(b) && $.typeof(a) === $.typeof(b)) return r ?? a == b
				return conc(a, '==') == conc(b, '==')
			}
			return a == b
		},
		lne: (a, b) => !$.leq(a, b),
		lt: (a, b) => cmp(a, b, 'lt'),
		gt: (a, b) => cmp(b, a, 'lt'),
		le: (a, b) => cmp(a, b, 'le'),
		ge: (a, b) => cmp(b, a, 'le'),
		inst(a, b) {
			if (isNum(a)) return false
			return a instanceof b
		},
		has(k, o) {
			k = key(k)
			if (hard(o, k)) {
				const r = resolve(o, k)
				return r !== undefined && r in o
			}
			return k in o
		},
		bin(op, a, b) {
			if (op === '+') {
				if (isNum(a) || isNum(b)) {
					if (typeof a === 'string') return a + T.fnAtom('num', b).tok
					if (typeof b === 'string') return T.fnAtom('num', a).tok + b
					if (!isObj(a) || isNum(a)) if (!isObj(b) || isNum(b)) return T.numBin('+', num(a), num(b))
					return isNum(a) ? T.fnAtom('num', a).tok + b : a + T.fnAtom('num', b).tok
				}
				return a + b
			}
			if (isNum(a) || isNum(b)) return T.numBin(op, num(conc2(a)), num(conc2(b)))
			if (isTok(a) || isTok(b)) {
				a = conc(a, op)
				b = conc(b, op)
			}
			switch (op) {
				case '-':
					return a - b
				case '*':
					return a * b
				case '/':
					return a / b
				case '%':
					return a % b
				case '**':
					return a ** b
				case '&':
					return a & b
				case '|':
					return a | b
				case '^':
					return a ^ b
				case '<<':
					return a << b
				case '>>':
					return a >> b
				case '>>>':
					return a >>> b
			}
		},
		un(op, a) {
			if (isNum(a)) {
				if (op === '+') return a
				if (op === '-') return T.numBin('*', -1, a)
				a = conc(a, op)
			}
			a = isTok(a) ? conc(a, op) : a
			return op === '-' ? -a : op === '+' ? +a : ~a
		},
		get(o, k) {
			if (typeof o === 'string' && isTok(o)) {
				if (k === 'length') return len(o)
				if (typeof k === 'number') return k >= 0 && Number.isInteger(k) && k < len(o) ? slice(o, k, k + 1) : undefined
				return o[k]
			}
			if (isNum(o)) return Number.prototype[k]
			k = key(k)
			if (hard(o, k)) {
				const r = resolve(o, k)
				return r === undefined ? undefined : o[r]
			}
			if (isTok(k) && !isObj(o) && o != null) return $.get(Object(o), k)
			return o[k]
		},
		set(o, k, v) {
			k = key(k)
			if (hard(o, k)) {
				const r = resolve(o, k)
				return (o[r === undefined ? k : r] = v)
			}
			return (o[k] = v)
		},
		def(o, k, value) {
			k = key(k)
			if (hard(o, k)) k = resolveOwn(o, k) ?? k
			Object.defineProperty(o, k, { value, enumerable: true, writable: true, configurable: true })
			return o
		},
		defd(o, src) {
			for (const k of Reflect.ownKeys(src)) Object.defineProperty(o, k, Object.getOwnPropertyDescriptor(src, k))
			return o
		},
		spread(o, src) {
			if (src == null || typeof src === 'boolean' || typeof src === 'number') return o
			if (isTok(src)) src = conc(src, 'object spread of a string')
			if (typeof src === 'string') return Object.assign(o, src)
			if (isNum(src)) return o
			for (const k of Reflect.ownKeys(src)) {
				const d = Reflect.getOwnPropertyDescriptor(src, k)
				if (d && d.enumerable) $.def(o, k, src[k])
			}
			return o
		},
		rest(o, keys) {
			if (o == null) throw new TypeError(`Cannot destructure '${o}'`)
			const r = $.spread({}, o)
			for (const k of keys) $.del(r, typeof k === 'string' || typeof k === 'symbol' || isSym(k) ? k : String(k))
			return r
		},
		cset(o, k, op, v) {
			return $.set(o, k, $.bin(op, $.get(o, k), v))
		},
		upd(o, k, op, prefix) {
			const old = $.get(o, k)
			const now = $.bin(op === 1 ? '+' : '-', isNum(old) ? old : Number(old), 1)
			$.set(o, k, now)
			return prefix ? now : old
		},
		del(o, k) {
			k = key(k)
			if (hard(o, k)) {
				const r = resolveOwn(o, k)
				return r === undefined ? true : delete o[r]
			}
			return delete o[k]
		},
		iter(x) {
			if (isTok(x)) {
				const n = len(x)
				return Array.from({ length: n }, (_, i) => slice(x, i, i + 1))
			}
			return x
		},
		plain(x) {
			return isTok(x) ? conc(x, 'for-in') : isNum(x) ? {} : x
		},
		destr(o, keys) {
			if (isTok(o)) return { length: len(o) }
			if (isNum(o)) return {}
			if (isObj(o) && keys.length && keys.some(k => k !== null && hard(o, k))) {
				const r = {}
				for (const k of keys) if (k !== null) $.def(r, k, $.get(o, k))
				return r
			}
			return o
		},
		c: (f, t, a) => callFn(f, t, a),
		m(o, k, a) {
			if (typeof o === 'string') {
				if (hasOwn(STR, k) && (isTok(o) || a.some(isSym)) && typeof String.prototype[k] === 'function') {
					const r = STR[k](o, a)
					if (r !== undefined || k === 'at' || k === 'codePointAt') return r
					return X.nativeConc(String.prototype[k], o, a)
				}
			}
			if (isNum(o)) {
				if (k === 'toString' || k === 'toLocaleString') {
					if (a.length === 0 || a[0] === 10) return T.fnAtom('num', o).tok
				}
				if (k === 'valueOf') return o
			}
			const f = $.get(o, k)
			if (typeof f !== 'function') {
				if (o == null) return o[k]
				throw new TypeError(`${String(typeof k === 'symbol' ? 'symbol' : k)} is not a function`)
			}
			return callFn(f, o, a)
		},
		new(C, a) {
			if (typeof C !== 'function') throw new TypeError('not a constructor')
			if (isNative(C)) {
				if ((C === Map || C === Set) && a[0] != null) {
					const m = new C()
					const add = C === Map ? e => mapSet(m, e[0], e[1]) : e => setAdd(m, e)
					for (const e of $.iter(a[0])) add(e)
					return m
				}
				if (a.some(isSym) && !TRANSPARENT_CTOR.has(C)) a = a.map(x => conc(x, `new ${C.name}`))
			}
			return Reflect.construct(C, a)
		},
		tostr(v) {
			if (typeof v === 'string') return v
			if (isNum(v)) return T.fnAtom('num', v).tok
			return String(v)
		}
	}
	const TRANSPARENT_CTOR = new Set([Error, TypeError, RangeError, SyntaxError, AggregateError, Promise, Array, Object, WeakMap, WeakSet, Proxy])
	const conc2 = x => (isTok(x) ? Number(conc(x, 'arithmetic')) : x)
	const num = x => (isNum(x) ? x : Number(x))
	function cmp(a, b, rel) {
		if (typeof a === 'string' && typeof b === 'string') {
			if (!isTok(a) && !isTok(b)) return rel === 'lt' ? a < b : a <= b
			return rel === 'lt' ? decide(T.strLt(a, b)) : !decide(T.strLt(b, a))
		}
		if (isNum(a) || isNum(b)) {
			a = conc2(a)
			b = conc2(b)
			if (isObj(a) && !isNum(a)) a = Number(a)
			if (isObj(b) && !isNum(b)) b = Number(b)
			return decide((rel === 'lt' ? T.numLt : T.numLe)(num(a), num(b)))
		}
		if (isTok(a)) a = conc(a, 'relational')
		if (isTok(b)) b = conc(b, 'relational')
		return rel === 'lt' ? a < b : a <= b
	}

	// ------------------------------------------------------------ calls
	const BOUND = new WeakMap()
	function callFn(f, t, a) {
		if (typeof f !== 'function') throw new TypeError(`${typeof f} is not a function`)
		if (!isNative(f)) return Reflect.apply(f, t, a)
		const b = BOUND.get(f)
		if (b) return callFn(b.f, b.t, [...b.a, ...a])
		const m = MODELS.get(f)
		if (m) return m(t, a)
		if (STRFN.has(f)) {
			const k = STRFN.get(f)
			if (typeof t === 'string' && (isTok(t) || a.some(isSym))) return $.m(t, k, a)
			return Reflect.apply(f, t, a)
		}
		if (!isSym(t) && !a.some(isSym)) return Reflect.apply(f, t, wrapCbs(a))
		if (TRANSPARENT.has(f)) return Reflect.apply(f, t, wrapCbs(a))
		if (types.isBoxedPrimitive?.(t) || CALLBACKISH(f)) return Reflect.apply(f, t, a)
		return X.nativeConc(f, t, a)
	}
	// promise resolve functions, bound functions created natively, proxies' revoke ... carry values only
	const CALLBACKISH = f => f.name === '' || f.name.startsWith('bound ')
	function wrapCbs(a) {
		for (let i = 0; i < a.length; i++) {
			const f = a[i]
			if (typeof f === 'function' && isNative(f) && (MODELS.has(f) || STRFN.has(f))) {
				a = [...a]
				a[i] = function (...x) {
					return callFn(f, this, x)
				}
			}
		}
		return a
	}
	X.nativeConc = (f, t, a) => {
		X.note('native', f.name)
		return Reflect.apply(f, conc(t, f.name), a.map(x => conc(x, f.name)))
	}
	const STRFN = new Map()
	for (const k of Object.keys(STR)) STRFN.set(String.prototype[k], k)

	function mapKey(m, k) {
		if (!isSym(k)) {
			if (m.has(k)) return k
			if (typeof k !== 'string' && typeof k !== 'number') return k
		}
		for (const e of m.keys()) if (e === k) return e
		for (const e of m.keys()) if ((isSym(e) || isSym(k)) && sameValueZero(e, k)) return e
		return k
	}
	const isMap = t => types.isMap(t)
	const isSet = t => types.isSet(t)
	const mGet = Map.prototype.get
	const mSet = Map.prototype.set
	const sAdd = Set.prototype.add
	const mapSet = (m, k, v) => mSet.call(m, mapKey(m, k), v)
	const setAdd = (m, k) => sAdd.call(m, mapKey(m, k))
	const arr = name => Array.prototype[name]
	const lenOf = t => {
		const n = $.get(t, 'length')
		return n >>> 0
	}
	const MODELS = new Map([
		[Object.is, (_, [a, b]) => sameValue(a, b)],
		[Boolean, (_, [a]) => $.t(a)],
		[String, (_, a) => (a.length ? (typeof a[0] === 'symbol' ? String(a[0]) : $.tostr(a[0])) : '')],
		[Number, (_, a) => (isNum(a[0]) ? a[0] : Number(...a.map(x => conc(x, 'Number()'))))],
		[Number.isNaN, (_, [a]) => (isNum(a) ? decide(T.numIsNaN(a)) : Number.isNaN(a))],
		[isNaN, (_, [a]) => (isNum(a) ? decide(T.numIsNaN(a)) : isNaN(conc(a, 'isNaN')))],
		[Number.isFinite, (_, [a]) => (isNum(a) ? decide(T.numIsFinite(a)) : Number.isFinite(a))],
		[isFinite, (_, [a]) => (isNum(a) ? decide(T.numIsFinite(a)) : isFinite(conc(a, 'isFinite')))],
		[Number.isInteger, (_, [a]) => (isNum(a) ? decide(T.numIsInt(a)) : Number.isInteger(a))],
		[Function.prototype.call, (t, [x, ...a]) => callFn(t, x, a)],
		[Function.prototype.apply, (t, [x, a]) => callFn(t, x, a == null ? [] : Array.from(a))],
		[
			Function.prototype.bind,
			(t, [x, ...a]) => {
				const r = Function.prototype.bind.call(t, x, ...a)
				BOUND.set(r, { f: t, t: x, a })
				nativeCache.set(r, true)
				return r
			}
		],
		[Reflect.apply, (_, [f, t, a]) => callFn(f, t, Array.from(a))],
		[Reflect.construct, (_, [C, a, nt]) => (nt === undefined ? $.new(C, Array.from(a)) : Reflect.construct(C, a, nt))],
		[
			Reflect.get,
			(_, [o, k, r]) => {
				k = key(k)
				if (hard(o, k)) k = resolve(o, k) ?? k
				return r === undefined ? Reflect.get(o, k) : Reflect.get(o, k, r)
			}
		],
		[
			Reflect.set,
			(_, [o, k, v, ...r]) => {
				k = key(k)
				if (hard(o, k)) k = resolve(o, k) ?? k
				return Reflect.set(o, k, v, ...r)
			}
		],
		[Reflect.has, (_, [o, k]) => $.has(k, o)],
		[
			Reflect.deleteProperty,
			(_, [o, k]) => {
				k = key(k)
				if (hard(o, k)) k = resolveOwn(o, k) ?? k
				return Reflect.deleteProperty(o, k)
			}
		],
		...[Reflect.getOwnPropertyDescriptor, Object.getOwnPropertyDescriptor].map(f => [
			f,
			(_, [o, k]) => {
				k = key(k)
				if (hard(o, k)) k = resolveOwn(o, k) ?? k
				return f(o, k)
			}
		]),
		...[Reflect.defineProperty, Object.defineProperty].map(f => [
			f,
			(_, [o, k, d]) => {
				k = key(k)
				if (hard(o, k)) k = resolveOwn(o, k) ?? k
				return f(o, k, d)
			}
		]),
		...[Object.prototype.hasOwnProperty, Object.prototype.propertyIsEnumerable].map(f => [
			f,
			(t, [k]) => {
				k = key(k)
				if (hard(t, k)) {
					const r = resolveOwn(t, k)
					return r === undefined ? false : f.call(t, r)
				}
				return f.call(t, k)
			}
		]),
		[Object.hasOwn, (_, [o, k]) => MODELS.get(Object.prototype.hasOwnProperty)(Object(o), [k])],
		[
			Object.assign,
			(_, [t, ...ss]) => {
				if (t === null || t === undefined) throw new TypeError('Cannot convert undefined or null to object')
				if (!isObj(t) || isNum(t)) {
					if (isTok(t) || isNum(t)) X.abort('unmodelled', 'wrapper object of a symbolic value')
					t = Object(t)
				}
				for (const s of ss) {
					if (s == null) continue
					if (!isObj(s)) {
						Object.assign(t, s)
						continue
					}
					if (isNum(s)) continue
					for (const k of Reflect.ownKeys(s)) {
						const d = Reflect.getOwnPropertyDescriptor(s, k)
						if (d && d.enumerable) $.set(t, k, s[k])
					}
				}
				return t
			}
		],
		[
			Object.fromEntries,
			(_, [es]) => {
				const o = {}
				for (const e of es) $.def(o, e[0], e[1])
				return o
			}
		],
		[Object.getPrototypeOf, (_, [o]) => (isNum(o) ? Number.prototype : Object.getPrototypeOf(o))],
		[Object.keys, (_, [o]) => (isNum(o) ? [] : isTok(o) ? Object.keys($.iter(o)) : Object.keys(o))],
		[Object.freeze, (_, [o]) => (isNum(o) ? o : Object.freeze(o))],
		[Object.isFrozen, (_, [o]) => (isNum(o) ? true : Object.isFrozen(o))],
		// Map / Set
		[Map.prototype.get, (t, [k]) => (isMap(t) ? mGet.call(t, mapKey(t, k)) : mGet.call(t, k))],
		[Map.prototype.has, (t, [k]) => Map.prototype.has.call(t, isMap(t) ? mapKey(t, k) : k)],
		[Map.prototype.set, (t, [k, v]) => mSet.call(t, isMap(t) ? mapKey(t, k) : k, v)],
		[Map.prototype.delete, (t, [k]) => Map.prototype.delete.call(t, isMap(t) ? mapKey(t, k) : k)],
		[Set.prototype.has, (t, [k]) => Set.prototype.has.call(t, isSet(t) ? mapKey(t, k) : k)],
		[Set.prototype.add, (t, [k]) => sAdd.call(t, isSet(t) ? mapKey(t, k) : k)],
		[Set.prototype.delete, (t, [k]) => Set.prototype.delete.call(t, isSet(t) ? mapKey(t, k) : k)],
		// arrays
		[
			arr('includes'),
			(t, [x, from]) => {
				const n = lenOf(t)
				for (let i = start(from, n); i < n; i++) if (sameValueZero($.get(t, i), x)) return true
				return false
			}
		],
		[
			arr('indexOf'),
			(t, [x, from]) => {
				const n = lenOf(t)
				for (let i = start(from, n); i < n; i++) if (i in t && strictEq($.get(t, i), x)) return i
				return -1
			}
		],
		[
			arr('lastIndexOf'),
			(t, [x]) => {
				for (let i = lenOf(t) - 1; i >= 0; i--) if (i in t && strictEq($.get(t, i), x)) return i
				return -1
			}
		],
		...[
			['filter', () => [], (r, x, v) => void (x && r.push(v))],
			['some', () => false, (r, x) => (x ? { v: true } : undefined)],
			['every', () => true, (r, x) => (x ? undefined : { v: false })],
			['find', () => undefined, (r, x, v) => (x ? { v } : undefined)],
			['findIndex', () => -1, (r, x, v, i) => (x ? { v: i } : undefined)]
		].map(([name, init, step]) => [
			arr(name),
			(t, [cb, self]) => {
				if (typeof cb !== 'function') throw new TypeError('callback is not a function')
				const n = lenOf(t)
				const r = init()
				for (let i = 0; i < n; i++) {
					if (name[1] !== 'i' || name === 'filter') if (!(i in t)) continue
					const v = $.get(t, i)
					const s = step(r, $.t(callFn(cb, self, [v, i, t])), v, i)
					if (s) return s.v
				}
				return r
			}
		]),
		...['findLast', 'findLastIndex'].map(name => [
			arr(name),
			(t, [cb, self]) => {
				for (let i = lenOf(t) - 1; i >= 0; i--) {
					const v = $.get(t, i)
					if ($.t(callFn(cb, self, [v, i, t]))) return name === 'findLast' ? v : i
				}
				return name === 'findLast' ? undefined : -1
			}
		]),
		...['sort', 'toSorted'].map(name => [
			arr(name),
			(t, [cmpf]) => {
				const a = Array.from(t)
				const holes = a.filter(x => x === undefined).length
				const vs = a.filter(x => x !== undefined)
				const out = []
				for (const v of vs) {
					let i = out.length
					while (i > 0) {
						const c = cmpf === undefined ? cmp($.tostr(v), $.tostr(out[i - 1]), 'lt') : $.lt(callFn(cmpf, undefined, [v, out[i - 1]]), 0)
						if (!c) break
						i--
					}
					out.splice(i, 0, v)
				}
				for (let i = 0; i < holes; i++) out.push(undefined)
				if (name === 'toSorted') return out
				for (let i = 0; i < out.length; i++) $.set(t, i, out[i])
				return t
			}
		]),
		[Array.from, (_, [x, ...r]) => Array.from(isTok(x) ? $.iter(x) : x, ...wrapCbs(r))],
		[arr('join'), (t, a) => Reflect.apply(arr('join'), Array.from(t, x => (isNum(x) ? $.tostr(x) : x)), a)],
		// regular expressions
		[
			RegExp.prototype.test,
			(t, [s]) => {
				s = $.tostr(s)
				if (!isTok(s)) return t.test(s)
				const r = regexTest(t, s)
				return r ? r() : t.test(conc(s, `regex ${t.source}`))
			}
		],
		// JSON
		[JSON.stringify, (_, a) => stringify(...a)],
		[JSON.parse, (_, a) => parse(...a)]
	])
	function start(from, n) {
		if (from === undefined) return 0
		from = Math.trunc(from)
		return from < 0 ? Math.max(0, n + from) : from
	}
	const TRANSPARENT = new Set([
		...['push', 'pop', 'shift', 'unshift', 'slice', 'splice', 'concat', 'forEach', 'map', 'reduce', 'reduceRight', 'flatMap', 'flat', 'reverse', 'entries', 'keys', 'values', 'fill', 'with', 'toSpliced', 'at', 'toReversed'].map(arr),
		Array.of,
		Array.isArray,
		...['keys', 'values', 'entries', 'create', 'getOwnPropertyNames', 'getOwnPropertySymbols', 'getOwnPropertyDescriptors', 'isExtensible', 'isSealed', 'seal', 'preventExtensions', 'setPrototypeOf'].map(k => Object[k]),
		Object,
		Object.prototype.isPrototypeOf,
		...['ownKeys', 'getPrototypeOf', 'setPrototypeOf', 'isExtensible', 'preventExtensions'].map(k => Reflect[k]),
		...['get', 'set', 'has', 'delete'].map(k => WeakMap.prototype[k]),
		...['add', 'has', 'delete'].map(k => WeakSet.prototype[k]),
		...['forEach', 'keys', 'values', 'entries', 'clear'].flatMap(k => [Map.prototype[k], Set.prototype[k]]),
		Promise.resolve,
		Promise.reject,
		Promise.all,
		Promise.allSettled,
		Promise.race,
		Promise.any,
		Promise.prototype.then,
		Promise.prototype.catch,
		Promise.prototype.finally,
		Symbol,
		Symbol.for,
		Error,
		TypeError,
		RangeError,
		queueMicrotask,
		...Object.values(clock.fns),
		setTimeout,
		setImmediate,
		console.log,
		console.error,
		console.warn,
		console.info,
		console.debug,
		Error.captureStackTrace
	])
	for (const k of ['get', 'set']) TRANSPARENT.add(Object.getOwnPropertyDescriptor(Object.prototype, '__proto__')[k])
	for (const f of [...TRANSPARENT]) if (typeof f !== 'function') TRANSPARENT.delete(f)

	function stringify(v, replacer, indent) {
		if (replacer != null || indent != null) {
			if (replacer != null && !hasSymDeep(v)) return JSON.stringify(v, replacer, indent)
			if (replacer != null) X.abort('unmodelled', 'JSON.stringify replacer')
		}
		const txt = JSON.stringify(
			v,
			(k, x) => {
				if (isNum(x)) return decide(T.numIsFinite(x)) ? `\uE002${T.fnAtom('num', x).tok}\uE003` : null
				return x
			},
			indent
		)
		if (txt === undefined || !isTok(txt)) return txt
		return txt
			.split(/("\uE002\uE000\d+\uE001\uE003")/)
			.map(part =>
				part.startsWith('"\uE002') ? part.slice(2, -2) : part.replace(/\uE000\d+\uE001/g, t => T.fnAtom('esc', t).tok)
			)
			.join('')
	}
	function hasSymDeep(v, d = 0) {
		if (isSym(v)) return true
		if (!isObj(v) || d > 6) return false
		return Reflect.ownKeys(v).some(k => isTok(k) || hasSymDeep(v[k], d + 1))
	}
	function parse(txt, reviver) {
		txt = $.tostr(txt)
		if (!isTok(txt)) return JSON.parse(txt, reviver)
		if (reviver !== undefined) X.abort('unmodelled', 'JSON.parse reviver')
		let out = ''
		let inStr = false
		for (const p of T.pieces(txt)) {
			if (typeof p === 'string') {
				for (let i = 0; i < p.length; i++) {
					if (inStr && p[i] === '\\') i++
					else if (p[i] === '"') inStr = !inStr
				}
				out += p
			} else if (inStr && p.kind === 'fn' && p.fn === 'esc') out += p.arg
			else if (!inStr && p.kind === 'fn' && p.fn === 'num') out += `"\uE002${p.id}\uE003"`
			else return JSON.parse(conc(txt, 'JSON.parse'))
		}
		const v = JSON.parse(out, (k, x) => {
			if (typeof x === 'string' && x[0] === '\uE002') {
				const a = T.pieces(`\uE000${x.slice(1, -1)}\uE001`)[0]
				return T.numBin('+', a.arg, 0)
			}
			return x
		})
		if (isObj(v)) X.P.tokKeys = true
		return v
	}

	// ------------------------------------------------------------ deep comparison for harnesses
	const sameF = (a, b, zero) => {
		if (typeof a === 'string' && typeof b === 'string') return strEq(a, b)
		if (isNum(a) || isNum(b)) {
			if ((isNum(a) || typeof a === 'number') && (isNum(b) || typeof b === 'number')) return zero ? T.numSvz(a, b) : T.numIs(a, b)
			return T.FALSE
		}
		return T.lit(Object.is(a, b) || (!!zero && a === b))
	}
	function deepF(a, b, d = 0, zero = false) {
		if (!isObj(a) || !isObj(b) || isNum(a) || isNum(b) || a === b) return sameF(a, b, zero)
		if (d > 8) return T.FALSE
		if (typeof a === 'function' || typeof b === 'function') return T.FALSE
		if (Array.isArray(a) !== Array.isArray(b)) return T.FALSE
		if (Array.isArray(a)) {
			if (a.length !== b.length) return T.FALSE
			return T.and(Array.from(a, (x, i) => deepF(x, b[i], d + 1, zero)))
		}
		const ka = Reflect.ownKeys(a)
		const kb = Reflect.ownKeys(b)
		if (ka.length !== kb.length) return T.FALSE
		const fs = []
		for (const k of ka) {
			const r = typeof k === 'symbol' ? (hasOwn(b, k) ? k : undefined) : resolveOwn(b, k)
			if (r === undefined) return T.FALSE
			fs.push(deepF(a[k], b[r], d + 1, zero))
		}
		return T.and(fs)
	}
	return { $, sameF, deepF, conc, strictEq, sameValue, resolveOwn }
}
