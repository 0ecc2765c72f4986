// The Web Storage contract over a list of entries (the environment, not code under test).
export function memStorage(hooks = {}) {
	const es = []
	const own = t => {
		if (t !== store) throw new TypeError('Illegal invocation')
	}
	const store = {
		get length() {
			return es.length
		},
		key(i) {
			own(this)
			return i >= 0 && i < es.length ? es[i][0] : null
		},
		getItem(k) {
			own(this)
			if (hooks.get) hooks.get(k)
			const e = es.find(e => e[0] === k)
			return e ? e[1] : null
		},
		setItem(k, v) {
			own(this)
			if (hooks.set) hooks.set(k, v)
			const e = es.find(e => e[0] === k)
			v = String(v)
			if (e) e[1] = v
			else es.push([k, v])
		},
		removeItem(k) {
			own(this)
			if (hooks.remove) hooks.remove(k)
			const i = es.findIndex(e => e[0] === k)
			if (i >= 0) es.splice(i, 1)
		},
		clear() {
			own(this)
			es.length = 0
		},
		__entries: es
	}
	return store
}
