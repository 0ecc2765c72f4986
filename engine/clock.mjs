// The time of a path: timers fire when the scenario lets time pass (S.elapse), or when nothing else is left to run.
export const native = { setTimeout, clearTimeout, setInterval, clearInterval, now: Date.now }
const EPOCH = 1700000000000
let now = EPOCH
let timers = []
let n = 0
class Timer {
	constructor(fn, ms, every, args) {
		const d = Number(ms)
		Object.assign(this, { id: ++n, fn, args, due: now + (d >= 1 ? d : 1), every: every && (d >= 1 ? d : 1) })
		timers.push(this)
	}
	ref() {
		return this
	}
	unref() {
		return this
	}
	hasRef() {
		return true
	}
	[Symbol.toPrimitive]() {
		return this.id
	}
}
function off(t) {
	timers = timers.filter(x => x !== t && x.id !== t)
}
const fns = {
	setTimeout: (fn, ms, ...args) => new Timer(fn, ms, 0, args),
	setInterval: (fn, ms, ...args) => new Timer(fn, ms, 1, args),
	clearTimeout: off,
	clearInterval: off
}
const turn = () => new Promise(r => setImmediate(r))
/** fires the next timer due by then; false when there is none */
function fire(until) {
	const t = timers.filter(t => t.due <= until).sort((a, b) => a.due - b.due || a.id - b.id)[0]
	if (!t) return false
	now = Math.max(now, t.due)
	if (t.every) t.due += t.every
	else off(t)
	setImmediate(() => t.fn(...t.args))
	return true
}
export const clock = {
	start() {
		now = EPOCH
		timers = []
		Object.assign(globalThis, fns)
		Date.now = () => now
	},
	stop() {
		timers = []
		Object.assign(globalThis, { setTimeout: native.setTimeout, clearTimeout: native.clearTimeout, setInterval: native.setInterval, clearInterval: native.clearInterval })
		Date.now = native.now
	},
	fns,
	/** lets everything pending run, then the next timer, if any */
	next: () => fire(Infinity),
	async elapse(ms) {
		const until = now + ms
		await turn()
		for (let i = 0; i < 100 && fire(until); i++) {
			await turn()
			await turn()
		}
		now = until
	}
}
