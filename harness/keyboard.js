import { command, commandsGizmoFn, showCommandPalette } from '@just-web/commands'
import { keyboardGizmoFn } from '@just-web/keyboard'
import { osGizmo } from '@just-web/os'
import { browserKeyboardGizmo } from '@just-web/browser-keyboard'
import Mousetrap from 'mousetrap'
import { app } from './lib/app.js'

const translate = k => k.split('cmd+').join('command+')
const warnings = es => es.filter(e => e.level === 'warn' && /browser-keyboard/.test(e.id))
const severe = es => es.filter(e => e.level === 'error' || e.level === 'critical' || e.level === 'alert' || e.level === 'emergency')

/** a symbolic key: none, plain, or with a modifier that the key library spells differently */
function key(S, name, forms) {
	const f = S.choose(`${name}.form`, forms)
	if (f === 0) return undefined
	const k = S.str(name, { max: S.thorough ? 4 : 5 })
	S.assumeChars(k, [[43, 43], [97, 122]])
	S.assumeMinLen(k, 1)
	return f === 1 ? k : f === 2 ? `cmd+${k}` : f === 3 ? `ctrl+${k}` : `command+${k}`
}
const bound = () => Mousetrap.__bound()
function press(k, triggered) {
	const b = bound().find(b => b.key === k)
	let prevented = 0
	// the key library's trigger() hands out an event without methods
	const r = b && b.cb(triggered ? {} : { preventDefault: () => prevented++ }, k)
	return { hit: !!b && (b.action === undefined || b.action === 'keydown'), prevented, r }
}

export const scenarios = {
	'C12.bind': {
		bounds: '2 (thorough: 3) commands with a symbolic default key and/or mac key (<=5, thorough <=4, characters a-z and +, optionally after cmd+, ctrl+ or command+), contributed before the application starts or after, on mac or elsewhere',
		async run(S) {
			Mousetrap.reset()
			const mac = S.choose('mac', 2) === 1
			S.platformFamily = mac ? 'OS X' : 'Windows'
			const n = S.thorough ? 3 : 2
			const all = []
			for (let i = 0; i < n; i++) {
				const c = { id: `p.c${i}`, key: key(S, `k${i}`, i ? 3 : 5) }
				if (S.choose(`mac${i}`, 2)) c.mac = key(S, `m${i}`, 3)
				all.push(c)
			}
			const before = S.choose('before', n + 1)
			const invoked = []
			const handlers = {}
			for (const c of all) handlers[c.id] = (...args) => void invoked.push([c.id, args.length])
			const { app: a, entries } = await app([keyboardGizmoFn({ keyBindingContributions: all.slice(0, before) }), commandsGizmoFn({ handlers }), osGizmo, browserKeyboardGizmo])
			for (const c of all.slice(before)) a.keyboard.keyBindingContributions.add(c)
			const expected = []
			const ignored = []
			for (const c of all) {
				const k = mac && c.mac !== undefined ? c.mac : c.key
				if (k === undefined) continue
				const t = translate(k)
				if (expected.some(e => e.t === t)) ignored.push(c.id)
				else expected.push({ t, id: c.id })
			}
			S.eq('exactly the contributed keys are bound', bound().length, expected.length)
			S.check('binding runs no command', invoked.length === 0)
			for (const e of expected) {
				invoked.length = 0
				const p = press(e.t)
				S.check('each key is bound, in the spelling of the key library', p.hit)
				S.check('pressing it runs the command bound first, once', invoked.length === 1 && invoked[0][0] === e.id)
				S.eq('without arguments', invoked[0][1], 0)
				S.check('the browser default is prevented', p.prevented >= 1)
				S.check('and the event goes no further', p.r === false)
			}
			for (const id of ignored) S.check('a duplicate key is reported, naming the command', warnings(entries).some(w => w.args.some(x => typeof x === 'string' && x.includes(id))))
			if (!ignored.length) S.check('without duplicates nothing is reported', warnings(entries).length === 0)
			S.check('no errors are reported', severe(entries).length === 0)
			S.observe('bound', bound().map(b => b.key))
		}
	},
	'C12.change': {
		bounds: '2 contributed commands with symbolic keys; then the registry is changed by replacing (also by one with a mac key), removing or resetting bindings, on mac or elsewhere',
		async run(S) {
			Mousetrap.reset()
			const mac = S.choose('mac', 2)
			S.platformFamily = mac ? 'OS X' : 'Linux'
			const ks = ['k0', 'k1', 'k2'].map(n => `ctrl+${key(S, n, 2) ?? 'q'}`)
			const pre = [{ id: 'p.c0', key: ks[0] }]
			const invoked = []
			const handlers = { 'p.c0': () => invoked.push('p.c0'), 'p.c1': () => invoked.push('p.c1') }
			const { app: a } = await app([keyboardGizmoFn({ keyBindingContributions: pre }), commandsGizmoFn({ handlers }), osGizmo, browserKeyboardGizmo])
			const reg = a.keyboard.keyBindingContributions
			reg.add({ id: 'p.c1', key: ks[1] })
			const op = S.choose('op', 5)
			if (op === 4)
				reg.set(r => {
					r['p.c0'] = { id: 'p.c0', key: ks[0], mac: ks[2] }
				})
			else if (op === 0) reg.set({ 'p.c1': { id: 'p.c1', key: ks[2] } })
			else if (op === 1)
				reg.set(r => {
					delete r['p.c0']
				})
			else if (op === 2)
				reg.set(r => {
					r['p.c0'] = { id: 'p.c0', key: ks[2] }
				})
			else reg.reset()
			const expected = []
			const now = reg.get()
			const used = c => (mac && c.mac !== undefined ? c.mac : c.key)
			for (const id of ['p.c0', 'p.c1']) if (now[id] && !expected.some(e => translate(e[0]) === translate(used(now[id])))) expected.push([used(now[id]), id])
			S.eq('only current bindings stay bound', bound().length, expected.length)
			for (const [k, id] of expected) {
				invoked.length = 0
				S.check('current bindings are bound', press(translate(k)).hit)
				S.check('to the current command', invoked.length === 1 && invoked[0] === id)
			}
		}
	},
	'C12.names': {
		bounds: 'a command with a symbolic default key (<=11 letters or digits, may be an inherited name like constructor) and, on mac or elsewhere, no mac key, an empty one or a symbolic one, contributed before the application starts or after; then a second command with the same or another key',
		async run(S) {
			Mousetrap.reset()
			const mac = S.choose('mac', 2) === 1
			S.platformFamily = mac ? 'OS X' : 'Windows'
			const word = n => {
				const k = S.str(n)
				S.assumeChars(k, [[48, 57], [65, 90], [97, 122]])
				S.assumeMinLen(k, 1)
				return k
			}
			const c = { id: 'p.c0', key: word('k') }
			const m = S.choose('m', 3)
			if (m === 1) c.mac = ''
			if (m === 2) c.mac = word('km')
			const out = []
			const before = S.choose('before', 2)
			const { app: a, entries } = await app([keyboardGizmoFn(before ? { keyBindingContributions: [c] } : undefined), commandsGizmoFn({ handlers: { 'p.c0': () => out.push(0), 'p.c1': () => out.push(1) } }), osGizmo, browserKeyboardGizmo])
			if (!before) a.keyboard.keyBindingContributions.add(c)
			const used = mac && m ? c.mac : c.key
			S.eq('a command is bound when it has a key on this platform', bound().length, used ? 1 : 0)
			const k2 = S.choose('same', 2) ? c.key : word('k2')
			a.keyboard.keyBindingContributions.add({ id: 'p.c1', key: k2 })
			const taken = S.is(used, k2)
			S.eq('a further key is bound next to it unless it is taken', bound().length, (used ? 1 : 0) + (taken ? 0 : 1))
			S.eq('a taken key is reported, nothing else is', warnings(entries).length, taken ? 1 : 0)
			if (used) press(used)
			press(k2)
			S.check('the keys run their commands', out.join() === (taken ? '0,0' : used ? '0,1' : '1'))
		}
	},
	'C12.latest': {
		bounds: 'the handler of a bound command is (re)placed before or after binding; connected commands with a symbolic key',
		async run(S) {
			Mousetrap.reset()
			S.platformFamily = 'Windows'
			const k = key(S, 'k', 4)
			const id = 'p.' + S.str('id', { max: 4 })
			const out = []
			const { app: a, entries } = await app([keyboardGizmoFn(), commandsGizmoFn(), osGizmo, browserKeyboardGizmo])
			const c = command({ id, title: 't', ...(k === undefined ? {} : { key: k }) }, () => out.push('own'))
			c.connect(a)
			if (k === undefined) {
				S.check('a command without key is not bound', bound().length === 0)
				return
			}
			S.check('connecting binds the key', bound().length === 1)
			const again = S.choose('again', 2)
			if (again) a.commands.handlers.register(id, () => out.push('new'))
			press(translate(k))
			S.check('the key runs the current handler of the command', out.length === 1 && out[0] === (again ? 'new' : 'own'))
			S.check('without errors', severe(entries).length === 0)
		}
	},
	'C12.palette': {
		bounds: 'on mac or elsewhere, the built-in command palette and a command with a symbolic key and mac key connected in either order, also with a shared key; pressed or triggered by a program',
		async run(S) {
			Mousetrap.reset()
			const mac = S.choose('mac', 2)
			S.platformFamily = mac ? 'OS X' : 'Windows'
			const out = []
			const { app: a, entries } = await app([keyboardGizmoFn(), commandsGizmoFn(), osGizmo, browserKeyboardGizmo])
			const taken = S.choose('taken', 2)
			const k = taken ? 'ctrl+k' : `alt+${key(S, 'k', 2) ?? 'q'}`
			const m = taken ? 'cmd+k' : `shift+${key(S, 'm', 2) ?? 'q'}`
			const c = command({ id: 'p.c', key: k, mac: m }, () => void out.push('own'))
			const first = S.choose('first', 2)
			if (first) c.connect(a)
			showCommandPalette.connect(a, () => void out.push('palette'))
			if (!first) c.connect(a)
			const keys = mac ? ['command+k', translate(m)] : ['ctrl+k', translate(k)]
			S.eq('each key is bound once', bound().length, taken ? 1 : 2)
			S.eq('a key asked for twice is reported, nothing else', warnings(entries).length, taken)
			const expected = taken ? (first ? ['own'] : ['palette']) : ['palette', 'own']
			const triggered = S.choose('triggered', 2)
			for (const [i, n] of expected.entries()) {
				out.length = 0
				S.check('the key of the platform is bound', press(keys[i], triggered).hit)
				S.check('and runs its command, once', out.length === 1 && out[0] === n)
			}
			out.length = 0
			a.commands.showCommandPalette()
			S.check('the palette opens from the application as well', out.length === 1 && out[0] === 'palette')
			S.check('without errors', severe(entries).length === 0)
		}
	},
	'C12.apps': {
		bounds: 'two applications on one page with distinct symbolic keys; bindings added to either after both started',
		async run(S) {
			Mousetrap.reset()
			S.platformFamily = 'Linux'
			const ka = `ctrl+${key(S, 'ka', 2) ?? 'q'}`
			const kb = `alt+${key(S, 'kb', 2) ?? 'q'}`
			const kc = `shift+${key(S, 'kc', 2) ?? 'q'}`
			const out = []
			const mk = (n, k) => app([keyboardGizmoFn({ keyBindingContributions: [{ id: 'c', key: k }] }), commandsGizmoFn({ handlers: { c: () => out.push(n), d: () => out.push(`${n}d`) } }), osGizmo, browserKeyboardGizmo])
			const A = await mk('a', ka)
			const B = await mk('b', kb)
			const who = S.choose('who', 2)
			;(who ? A : B).app.keyboard.keyBindingContributions.add({ id: 'd', key: kc })
			for (const [k, n] of [[ka, 'a'], [kb, 'b'], [kc, who ? 'ad' : 'bd']]) {
				out.length = 0
				press(translate(k))
				S.check('a key runs the command of the application that contributed it', out.length === 1 && out[0] === n)
			}
		}
	}
}
