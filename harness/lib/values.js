// Symbolic scalar / structured values. Each call introduces fresh symbolic inputs.
export const KINDS = ['number', 'string', 'undefined', 'null', 'boolean', 'object', 'array', 'symbol']
let n = 0
const sym = Symbol('verif')
export function value(S, name, kinds = KINDS) {
	const k = kinds[S.choose(`${name}.kind`, kinds.length)]
	switch (k) {
		case 'number':
			return S.num(`${name}.num`)
		case 'string':
			return S.str(`${name}.str`)
		case 'undefined':
			return undefined
		case 'null':
			return null
		case 'boolean':
			return S.choose(`${name}.bool`, 2) === 1
		case 'true':
			return true
		case 'false':
			return false
		case 'object':
			return { p: S.num(`${name}.p`), q: { r: S.str(`${name}.r`) } }
		case 'emptyobj':
			return {}
		case 'array':
			return [S.num(`${name}.0`), S.str(`${name}.1`)]
		case 'symbol':
			return sym
	}
}
/** a deep copy, sharing nothing with v (symbolic scalars are immutable) */
export function snapshot(v) {
	if (Array.isArray(v)) return v.map(snapshot)
	if (typeof v === 'object' && v !== null) {
		const r = {}
		for (const k of Reflect.ownKeys(v)) r[k] = snapshot(v[k])
		return r
	}
	return v
}
export function deferred() {
	const d = {}
	d.promise = new Promise((res, rej) => {
		d.resolve = res
		d.reject = rej
	})
	return d
}
export const silent = () => {
	const noop = () => {}
	const l = {}
	for (const k of ['emergency', 'alert', 'critical', 'error', 'warn', 'notice', 'info', 'debug', 'trace', 'planck', 'on', 'count', 'write']) l[k] = noop
	return l
}
/** a LogGizmo whose loggers record [id, level, message] */
export function recordingLog() {
	const entries = []
	const mk = id => {
		const l = { id }
		for (const k of ['emergency', 'alert', 'critical', 'error', 'warn', 'notice', 'info', 'debug', 'trace', 'planck']) l[k] = (...args) => void entries.push({ id, level: k, args })
		l.on = () => {}
		l.count = () => {}
		return l
	}
	return { entries, log: Object.assign(mk(''), { getLogger: id => mk(id), getNonConsoleLogger: id => mk(id) }) }
}
