// the DOM key-press library: records what is bound; `press` plays the browser's part
const calls = []
let bound = []
const M = {
	bind(keys, cb, action) {
		for (const k of Array.isArray(keys) ? keys : [keys]) {
			bound = bound.filter(b => b.key !== k)
			bound.push({ key: k, cb, action })
		}
		return M
	},
	unbind(keys) {
		for (const k of Array.isArray(keys) ? keys : [keys]) bound = bound.filter(b => b.key !== k)
		return M
	},
	reset() {
		bound = []
		return M
	},
	trigger(k) {
		const b = bound.find(b => b.key === k)
		if (b) return b.cb({ preventDefault() {} }, k)
		return M
	},
	__bound: () => bound
}
export default M
