import { command, commandsGizmoFn, formatCommand, showCommandPalette } from '@just-web/commands'
import { formatKeyBinding, keyboardGizmoFn } from '@just-web/keyboard'
import { app } from './lib/app.js'
import { value } from './lib/values.js'
import { configGlobal } from 'standard-log'

const severe = es => es.filter(e => e.level === 'error' || e.level === 'critical' || e.level === 'alert' || e.level === 'emergency')
const loud = es => severe(es).concat(es.filter(e => e.level === 'warn'))
const mentions = (e, s) => e.args.some(a => typeof a === 'string' && a.includes(s))

export const scenarios = {
	// ------------------------------------------------------------------ C08
	'C08.handlers': {
		bounds: 'handlers given at creation (0 or 1) then 2 (thorough: 3) register calls over 2 symbolic command ids (<=11 units, may coincide, may be names like constructor), then an invoke and lookups of a third symbolic id',
		async run(S) {
			const k = [S.str('k0'), S.str('k1')]
			const calls = []
			const named = S.choose('named', 2)
			const mk = n => {
				const run = named
					? function run(...args) {
							calls.push({ n, args })
							return results[n]
						}
					: (...args) => {
							calls.push({ n, args })
							return results[n]
						}
				return run
			}
			const results = [{ r: 0 }, undefined, S.num('r2'), S.str('r3')]
			const hs = [0, 1, 2, 3].map(mk)
			const pre = S.choose('prefilled', 2)
			if (pre) S.assumeNe(k[0], '__proto__')
			const model = []
			const put = (id, n) => {
				const e = model.find(e => e[0] === id)
				if (e) e[1] = n
				else model.push([id, n])
			}
			const { app: a, entries } = await app([commandsGizmoFn(pre ? { handlers: { [k[0]]: hs[3] } } : undefined)])
			if (pre) put(k[0], 3)
			const steps = S.thorough ? 3 : 2
			for (let i = 0; i < steps; i++) {
				const w = S.choose(`which${i}`, 2)
				const known = model.some(e => e[0] === k[w])
				const noted = entries.filter(e => e.level === 'notice').length
				a.commands.handlers.register(k[w], hs[i])
				put(k[w], i)
				S.check('registering calls no handler', calls.length === 0)
				const notes = entries.filter(e => e.level === 'notice').slice(noted)
				S.eq('replacing a handler is noted, a first one is not', notes.length, known ? 1 : 0)
				if (known) S.check('with its id', mentions(notes[0], k[w]))
			}
			const q = S.choose('query', 2) ? S.str('q') : k[0]
			const hit = model.find(e => e[0] === q)
			const x = value(S, 'arg', ['number', 'string', 'object', 'array', 'undefined'])
			const mark = severe(entries).length
			const arity = S.choose('arity', 3)
			const out = arity === 2 ? a.commands.handlers.invoke(q, x, 'second') : arity ? a.commands.handlers.invoke(q, x) : a.commands.handlers.invoke(q)
			if (hit) {
				S.check('the handler registered last for the id runs, once', calls.length === 1 && calls[0].n === hit[1])
				S.eq('every argument is passed on, nothing else', calls[0].args.length, arity)
				if (arity) S.eq('the first argument is passed on', calls[0].args[0], x)
				if (arity > 1) S.eq('the second argument is passed on', calls[0].args[1], 'second')
				S.eq('the result comes back', out, results[hit[1]])
				S.check('a registered command reports no error', severe(entries).length === mark)
			} else {
				S.check('an unregistered id runs no handler', calls.length === 0)
				S.eq('and returns nothing', out, undefined)
				S.check('it is reported as an error, once', severe(entries).length === mark + 1)
				S.check('the report names the id', mentions(severe(entries)[mark], q))
			}
			S.eq('has() tells registered ids', a.commands.handlers.has(q), !!hit)
			const keys = a.commands.handlers.keys()
			S.eq('keys() lists one entry per registered id', keys.length, model.length)
			for (const e of model) S.check('keys() lists every registered id', keys.some(x => x === e[0]))
			S.observe('calls', calls.map(c => [c.n, c.args]))
		}
	},
	'C08.arity': {
		bounds: '0..4 arguments with symbolic values; invoked directly, through a connected command or through a command with its own handler',
		async run(S) {
			const { app: a, entries } = await app([commandsGizmoFn()])
			const n = S.choose('n', 5)
			const args = []
			for (let i = 0; i < n; i++) args.push(i === 1 ? S.str('a1') : i === 2 ? undefined : i === 0 ? value(S, 'a0', ['number', 'array', 'null', 'emptyobj']) : S.num(`a${i}`))
			let got
			const res = value(S, 'res', ['number', 'null', 'false', 'object'])
			const h = S.choose('declared', 2) ? (...xs) => ((got = xs), res) : function (_first) {
				got = [...arguments]
				return res
			}
			const how = S.choose('how', 4)
			const cmd = command('test.run', how === 2 ? h : undefined)
			if (how < 2) a.commands.handlers.register('test.run', h)
			if (how === 1) cmd.connect(a)
			if (how === 3) cmd.connect(a, h)
			const out = how === 0 ? a.commands.handlers.invoke('test.run', ...args) : how === 1 ? a.commands.handlers.invoke('test.run', ...args) : cmd(...args)
			S.eq('the number of arguments is kept', got && got.length, n)
			for (let i = 0; i < n; i++) S.eq('each argument is kept, in order', got[i], args[i])
			S.eq('the result is the handler result', out, res)
			S.check('no error is reported', severe(entries).length === 0)
		}
	},
	'C08.deep': {
		bounds: 'a handler that invokes its own id, without arguments, up to six deep, directly or through another one; by id or by a connected command; the innermost throwing or not; then again',
		async run(S) {
			const { app: a, entries } = await app([commandsGizmoFn()])
			const h = a.commands.handlers
			const id = S.str('id')
			const depth = [1, 3, 6][S.choose('depth', 3)]
			const via = S.choose('via', 2)
			const by = S.choose('by', 2)
			const fails = S.choose('fails', 2)
			const boom = new Error('innermost')
			const res = S.num('res')
			let left
			let ran = 0
			const own = (...args) => {
				ran += 1 + args.length
				if (left-- > 0) return via ? h.invoke(`${id}+`) : by ? cmd() : h.invoke(id)
				if (fails) throw boom
				return res
			}
			const cmd = command(id, own)
			cmd.connect(a)
			if (via) h.register(`${id}+`, () => h.invoke(id))
			for (const turn of [1, 2]) {
				left = depth
				ran = 0
				let r
				let caught
				try {
					r = by ? cmd() : h.invoke(id)
				} catch (e) {
					caught = e
				}
				S.check('a failure reaches the caller', caught === (fails ? boom : undefined))
				if (!fails) S.eq('the result comes back', r, res)
				S.eq('each invocation runs the handler, with no argument', ran, depth + 1)
			}
			S.check('nothing is reported', severe(entries).length === 0)
		}
	},
	'C08.again': {
		bounds: 'two or three handlers for a symbolic id, one given at creation or not, registered in any order, up to four times, also the same one again; then invoked by id or by a command',
		async run(S) {
			const id = S.str('id', { max: 3 })
			S.assumeNe(id, '__proto__')
			const hs = [0, 1, 2].map(i => x => [i, x])
			const given = S.choose('given', 2)
			const { app: a } = await app([commandsGizmoFn(given ? { handlers: { [id]: hs[0] } } : undefined)])
			const cmd = command(id)
			let now = given ? 0 : undefined
			const x = S.num('x')
			const n = S.choose('n', 4) + 1
			for (let i = 0; i < n; i++) {
				now = S.choose(`h${i}`, 3)
				if (S.choose(`by${i}`, 2)) cmd.connect(a, hs[now])
				else a.commands.handlers.register(id, hs[now])
				const r = a.commands.handlers.invoke(id, x)
				S.check('the one registered last runs', r[0] === now && S.is(r[1], x))
			}
			S.check('it is listed once', a.commands.handlers.keys().length === 1 && a.commands.handlers.has(id))
		}
	},
	'C08.nested': {
		bounds: 'a handler that invokes its own id again up to twice, another one, one that is missing, replaces itself or registers another, before returning; symbolic ids and argument; invoked by id or by a connected command',
		async run(S) {
			const { app: a, entries } = await app([commandsGizmoFn()])
			const h = a.commands.handlers
			const id = S.str('id')
			const other = S.str('other')
			S.assumeNe(id, other)
			const what = S.choose('what', 5)
			const x = S.str('x')
			const out = []
			const own = (n, y) => {
				out.push(['own', n, y])
				if (what === 0 && n > 0) return `${h.invoke(id, n - 1, y)}+`
				if (what === 1) return `${h.invoke(other, n, y)}+`
				if (what === 2) return `${h.invoke(`${id}.none`, n, y)}+`
				if (what === 3) h.register(id, (n, y) => (out.push(['new', n, y]), 'new'))
				if (what === 4) h.register(other, (n, y) => (out.push(['late', n, y]), 'late'))
				return 'own'
			}
			const cmd = command(id, own)
			cmd.connect(a)
			if (what === 1) h.register(other, (n, y) => (out.push(['other', n, y]), 'other'))
			if (what === 2) S.assumeNe(other, `${id}.none`)
			const run = S.choose('by', 2) ? (...args) => cmd(...args) : (...args) => h.invoke(id, ...args)
			const r = run(2, x)
			const expected = what === 0 ? ['own', 'own', 'own'] : what === 1 ? ['own', 'other'] : ['own']
			S.eq('each handler runs when asked for, once', out.map(o => o[0]).join(), expected.join())
			for (const [i, o] of out.entries()) {
				S.eq('with the arguments it was asked with', o[1], what === 0 ? 2 - i : 2)
				S.eq('each of them', o[2], x)
			}
			S.eq('the results come back', r, ['own++', 'other+', 'undefined+', 'own', 'own'][what])
			S.eq('only a missing one is reported', severe(entries).length, what === 2 ? 1 : 0)
			out.length = 0
			if (what === 3) S.check('the new one runs from then on', run(1, x) === 'new' && out.length === 1)
			if (what === 4) S.check('so does the one registered', h.invoke(other, 1, x) === 'late' && out.length === 1)
		}
	},
	'C08.failures': {
		bounds: 'a handler that throws or rejects, invoked by id or through its command',
		async run(S) {
			const { app: a } = await app([commandsGizmoFn()])
			const boom = new Error('boom')
			const asyncH = S.choose('async', 2)
			const h = asyncH ? () => Promise.reject(boom) : () => {
				throw boom
			}
			const cmd = command({ id: S.str('id') }, h)
			const via = S.choose('via', 3)
			if (via) cmd.connect(a)
			let caught
			try {
				await (via === 1 ? a.commands.handlers.invoke(cmd.id) : cmd())
			} catch (e) {
				caught = e
			}
			S.check('the failure reaches the caller', caught === boom)
			S.check('nothing is left unhandled', S.unhandled().length === 0)
			if (!via) return
			a.commands.handlers.register(cmd.id, () => 7)
			S.eq('a later registration takes over', a.commands.handlers.invoke(cmd.id), 7)
		}
	},
	// ------------------------------------------------------------------ C09
	'C09.routing': {
		bounds: 'a command with/without initial handler, created from a symbolic id or from an object, then 2 (thorough: 3) of {define a handler, connect, connect with a handler}; then called',
		async run(S) {
			const kb = S.choose('keyboard', 2)
			const { app: a, entries } = await app([...(kb ? [keyboardGizmoFn()] : []), commandsGizmoFn()])
			const id = S.str('id')
			const local = S.choose('local', 2)
			const key = local ? 0 : S.choose('key', 3)
			const info = { id, title: 'T', ...(key === 1 ? { key: 'ctrl+x' } : key === 2 ? { mac: 'cmd+x' } : {}) }
			const calls = []
			const few = S.choose('few', 2)
			const mk = n => few ? function (_) {
				calls.push([n, [...arguments]])
				return n
			} : (...args) => (calls.push([n, args]), n)
			let own = S.choose('initial', 2) ? 'initial' : undefined
			const cmd = command(local ? id : info, own && mk(own))
			S.check('creating a command registers nothing', !a.commands.handlers.has(id) || a.commands.handlers.keys().some(k => k === 'just-web.showCommandPalette' && k === id))
			let connected = false
			let registered
			const steps = S.thorough ? 3 : 2
			for (let i = 0; i < steps; i++) {
				const op = S.choose(`op${i}`, 4)
				if (op === 0) {
					own = `defined${i}`
					cmd.defineHandler(mk(own))
				} else if (op === 1) {
					cmd.connect(a)
					connected = true
					if (own) registered = own
				} else if (op === 2) {
					own = `connected${i}`
					cmd.connect(a, mk(own))
					connected = true
					registered = own
				}
			}
			S.check('setting up calls no handler', calls.length === 0)
			const x = S.num('x')
			const before = severe(entries).length
			const r = cmd(x, 'second')
			if (connected && registered) {
				S.eq('a connected command runs the handler registered in the application', r, registered)
				S.check('exactly once', calls.length === 1)
				S.eq('with its argument', calls[0] && calls[0][1][0], x)
				S.check('and every further one', calls[0] && calls[0][1].length === 2 && calls[0][1][1] === 'second')
				S.check('the application can invoke it by id', a.commands.handlers.has(id) === true)
				S.eq('with the same result', a.commands.handlers.invoke(id, x), registered)
			} else if (!connected && own) {
				S.eq('an unconnected command runs its own handler', r, own)
				S.check('exactly once', calls.length === 1)
				S.eq('with its argument', calls[0] && calls[0][1][0], x)
				S.check('and every further one', calls[0] && calls[0][1].length === 2 && calls[0][1][1] === 'second')
				S.check('and stays unknown to the application', a.commands.handlers.has(id) === false)
			} else if (!connected) {
				S.eq('without any handler it returns nothing', r, undefined)
				S.check('and runs nothing', calls.length === 0)
			} else {
				S.check('a connected command without registered handler runs nothing', calls.length === 0)
				S.check('and the application reports the missing handler', severe(entries).length === before + 1)
				S.check('no handler appears in the application', a.commands.handlers.has(id) === false)
			}
			const pub = connected && registered && !local
			S.eq('a public command is discoverable exactly when connected with a handler', a.commands.contributions.has(id), !!pub)
			if (pub) S.check('the contribution is what was declared', a.commands.contributions.get()[id].title === 'T' && a.commands.contributions.get()[id].id === id)
			if (kb) {
				S.eq('its key binding is contributed exactly when it has a key', a.keyboard.keyBindingContributions.has(id), !!(pub && key))
				if (pub && key) {
					const b = a.keyboard.keyBindingContributions.get()[id]
					S.check('with the declared keys', b.key === info.key && b.mac === info.mac)
				}
			}
			S.eq('the function is named after the id', cmd.name, id)
			S.eq('the command carries its id', cmd.id, id)
		}
	},
	'C09.moved': {
		bounds: 'a command with a handler of its own, connected to two applications in turn 2 or 3 times, with a handler or not, each application replacing the handler under its id before, in between, afterwards or not; symbolic id',
		async run(S) {
			const id = S.str('id')
			S.assumeNe(id, 'just-web.showCommandPalette')
			const rs = [await app([commandsGizmoFn()]), await app([commandsGizmoFn()])]
			const cmd = command(S.choose('local', 2) ? id : { id }, () => 'own')
			let own = 'own'
			const current = []
			const replace = (i, n) => {
				rs[i].app.commands.handlers.register(id, () => n)
				current[i] = n
			}
			const steps = 2 + S.choose('steps', 2)
			let at
			for (let k = 0; k < steps; k++) {
				at = k === 2 ? S.choose('third', 2) : k
				const i = S.choose(`replace${k}`, 3)
				if (i < 2) replace(i, `replaced${k}`)
				if (S.choose(`given${k}`, 2)) {
					own = `given${k}`
					cmd.connect(rs[at].app, () => `given${k}`)
				} else cmd.connect(rs[at].app)
				current[at] = own
				S.eq('connecting puts its handler in effect in that application', cmd(), own)
			}
			const i = S.choose('last', 3)
			if (i < 2) replace(i, 'last')
			S.eq('a command reaches the handler of the application it was connected to last', cmd(), current[at])
			for (const n of [0, 1]) S.eq('each application keeps its own', rs[n].app.commands.handlers.invoke(id), current[n])
		}
	},
	'C09.separate': {
		bounds: 'one package declares the command, another one provides the handler in the application; symbolic id',
		async run(S) {
			const { app: a, entries } = await app([commandsGizmoFn()])
			const id = S.str('id')
			const declared = command({ id })
			const order = S.choose('order', 2)
			if (order) declared.connect(a)
			const x = S.num('x')
			a.commands.handlers.register(id, v => v)
			if (!order) declared.connect(a)
			S.eq('the implementation answers calls of the declaration', declared(x), x)
			const other = command({ id })
			other.connect(a)
			S.eq('also through a second declaration of the same id', other(x), x)
			a.commands.handlers.register(id, () => 'replaced')
			S.eq('replacing the implementation redirects the declaration', declared(x), 'replaced')
			S.check('no errors', severe(entries).length === 0)
		}
	},
	'C09.missing': {
		bounds: 'a command with symbolic id, declared by id or by object, called 1..3 times before it has a handler or an application, then after one is defined or connected',
		async run(S) {
			const told = []
			configGlobal({ reporters: [{ id: 'told', isConsoleReporter: false, write: e => void told.push(e) }] })
			const id = S.str('id')
			const { app: a } = await app([commandsGizmoFn()])
			const cmd = S.choose('local', 2) ? command(id) : command({ id })
			const n = 1 + S.choose('times', 3)
			told.length = 0
			for (let i = 0; i < n; i++) {
				S.eq('it returns nothing', cmd(S.num(`x${i}`)), undefined)
				S.check('every such call is reported, naming the command', told.length === i + 1 && told[i].level <= 400 && mentions(told[i], id))
			}
			const y = S.num('y')
			const how = S.choose('how', 3)
			if (how === 0) cmd.defineHandler(v => v)
			else if (how === 1) cmd.connect(a, v => v)
			else {
				a.commands.handlers.register(id, v => v)
				cmd.connect(a)
			}
			S.eq('afterwards it runs', cmd(y), y)
			S.eq('and nothing more is reported', told.length, n)
		}
	},
	'C09.twoApps': {
		bounds: 'two applications with commands; the built-in palette command invoked in either, in either order; handlers in one or both',
		async run(S) {
			const A = await app([commandsGizmoFn()])
			const B = await app([commandsGizmoFn()])
			const log = []
			const ha = S.choose('a', 2)
			const hb = S.choose('b', 2)
			const x = 'just-web.showCommandPalette'
			const viaConnect = S.choose('connect', 2)
			const reg = (o, n) => (viaConnect ? showCommandPalette.connect(o.app, () => log.push(n)) : o.app.commands.handlers.register(x, () => log.push(n)))
			if (ha) reg(A, 'a')
			if (hb) reg(B, 'b')
			const first = S.choose('first', 2)
			const go = (o, has, n) => {
				log.length = 0
				o.app.commands.showCommandPalette()
				S.check('the palette of an application runs that application\'s handler only', log.length === (has ? 1 : 0) && (!has || log[0] === n))
			}
			if (first) go(A, ha, 'a')
			go(B, hb, 'b')
			if (!first) go(A, ha, 'a')
			S.eq('handlers of one application are unknown to the other', A.app.commands.handlers.has(x), !!ha)
			S.eq('and the other way round', B.app.commands.handlers.has(x), !!hb)
		}
	},
	// ------------------------------------------------------------------ C31
	'C31.discover': {
		bounds: 'a public or local command with symbolic id, each of title, description, category, icon, palette flag, key and mac key (symbolic texts) present or not, with a handler from the start, given on connecting, or none; with or without a keyboard; then another command with a symbolic id',
		async run(S) {
			const kb = S.choose('keyboard', 2)
			const { app: a, entries } = await app([...(kb ? [keyboardGizmoFn()] : []), commandsGizmoFn()])
			const id = S.str('id')
			const info = { id }
			const texts = S.choose('texts', 4)
			if (texts > 0) info.title = S.str('title', { max: 4 })
			if (texts > 1) info.description = S.str('description', { max: 4 })
			if (texts > 2) {
				info.category = S.str('category', { max: 4 })
				info.icon = { light: S.str('light', { max: 4 }) }
				info.commandPalette = S.choose('palette', 2) === 1
			}
			const keys = S.choose('keys', 4)
			if (keys & 1) info.key = S.str('key', { max: 4 })
			if (keys & 2) info.mac = S.str('mac', { max: 4 })
			const local = S.choose('local', 2)
			const handler = S.choose('handler', 3)
			const cmd = command(local ? id : { ...info }, handler === 1 ? () => 1 : undefined)
			const bound = !local && ((info.key !== undefined && info.key !== '') || (info.mac !== undefined && info.mac !== ''))
			if (!local) for (const k of Object.keys(info)) S.check('a command carries what it was declared with', k === 'icon' ? cmd.icon.light === info.icon.light : S.is(cmd[k], info[k]))
			handler === 2 ? cmd.connect(a, () => 2) : cmd.connect(a)
			const listed = !local && handler > 0
			const c = a.commands.contributions
			S.eq('connecting a public command that has a handler contributes it, and a local one never', c.has(id), listed)
			S.eq('once', c.size(), listed ? 1 : 0)
			if (listed) for (const k of Object.keys(info)) S.check('as declared', k === 'icon' ? c.get()[id].icon.light === info.icon.light : S.is(c.get()[id][k], info[k]))
			if (kb) {
				const b = a.keyboard.keyBindingContributions
				S.eq('and its key when it has one', b.has(id), listed && bound)
				S.eq('also once', b.size(), listed && bound ? 1 : 0)
				if (listed && bound) S.check('for either platform', S.is(b.get()[id].key, info.key) && S.is(b.get()[id].mac, info.mac))
			}
			S.eq('nothing to report', loud(entries).length, 0)
			const id2 = S.str('id2')
			const other = command({ id: id2, title: 'other', key: 'x' }, () => 3)
			other.connect(a)
			const same = S.is(id, id2)
			S.eq('a further command is contributed next to it', c.size(), listed ? (same ? 1 : 2) : 1)
			S.check('unless its id is taken', c.get()[id2].title === (same && listed ? info.title : 'other'))
			if (kb) S.check('and likewise its key', a.keyboard.keyBindingContributions.get()[id2].key === (same && listed && bound ? info.key : 'x'))
			S.eq('its handler is registered all the same', a.commands.handlers.invoke(id2), 3)
		}
	},
	'C31.apps': {
		bounds: 'a public command with a symbolic id connected to two applications, having 0, 8 or 40 others each, in either order, with a key',
		async run(S) {
			const rs = [await app([keyboardGizmoFn(), commandsGizmoFn()]), await app([keyboardGizmoFn(), commandsGizmoFn()])]
			const n = [0, 8, 40][S.choose('others', 3)]
			for (const r of rs)
				for (let i = 0; i < n; i++) {
					r.app.commands.contributions.add({ id: `other.command.${i}`, title: 'O' })
					r.app.keyboard.keyBindingContributions.add({ id: `other.command.${i}`, key: 'y' })
				}
			const cmd = command({ id: S.str('id'), title: 'T', key: 'x' }, () => 1)
			const first = S.choose('first', 2)
			cmd.connect(rs[first].app)
			S.eq('a command is contributed to the application it is connected to', rs[first].app.commands.contributions.size() + rs[first].app.keyboard.keyBindingContributions.size(), 2 * n + 2)
			S.eq('and to no other', rs[1 - first].app.commands.contributions.size() + rs[1 - first].app.keyboard.keyBindingContributions.size(), 2 * n)
			cmd.connect(rs[1 - first].app)
			for (const r of rs) {
				S.check('each application it is connected to lists it', r.app.commands.contributions.has(cmd.id) && r.app.keyboard.keyBindingContributions.has(cmd.id))
				S.eq('and runs it', r.app.commands.handlers.invoke(cmd.id), 1)
				S.eq('without complaints', loud(r.entries).length, 0)
			}
		}
	},
	// ------------------------------------------------------------------ C10
	'C10.contributions': {
		bounds: '0..1 prefilled and 2 (thorough: 3) added contributions with symbolic ids, with a title, an empty one or none, added together or one by one',
		async run(S) {
			const pre = S.choose('prefilled', 2) ? [{ id: S.str('p'), title: 'pre' }] : []
			const n = S.thorough ? 3 : 2
			const cs = []
			const bare = S.choose('bare', 3)
			for (let i = 0; i < n; i++) cs.push({ id: S.str(`c${i}`), ...(bare === 0 ? { title: `t${i}` } : bare === 1 ? { title: '' } : {}) })
			const { app: a, entries } = await app([commandsGizmoFn({ contributions: pre })])
			const reg = a.commands.contributions
			const seen = []
			let note = 0
			reg.onChange(() => note++)
			const model = [...pre]
			let dups = 0
			const reported = []
			for (const c of cs) {
				if (model.some(m => m.id === c.id)) {
					dups++
					reported.push(c.id)
				} else {
					model.push(c)
					seen.push(c)
				}
			}
			if (S.choose('together', 2)) reg.add(...cs)
			else for (const c of cs) reg.add(c)
			for (const m of model) S.check('the first contribution of an id is kept, as given', reg.get()[m.id] === m)
			S.eq('no other contribution exists', reg.size(), model.length)
			const errs = loud(entries)
			S.eq('each ignored duplicate is reported', errs.length, dups)
			for (let i = 0; i < dups; i++) S.check('naming the id', errs[i] && mentions(errs[i], reported[i]))
			const q = S.str('q')
			S.eq('looking up an id finds exactly contributions', reg.has(q), model.some(m => m.id === q))
			if (seen.length) S.check('subscribers hear about new contributions', note >= 1)
			for (const c of [...pre, ...cs]) S.check('contributions given are not modified', Object.keys(c).length === (bare === 2 && c !== pre[0] ? 1 : 2))
		}
	},
	'C10.format': {
		bounds: 'symbolic id (<=12 units) with or without a category; title present (possibly empty) or absent; description present or absent',
		async run(S) {
			const cat = S.choose('dot', 3)
			const head = S.str('head', { max: 6 })
			const rest = S.str('rest', { max: 6 })
			S.assumeChars(head, [[33, 45], [47, 126]])
			S.assumeChars(rest, [[45, 57], [65, 90], [97, 122]])
			const id = cat === 0 ? head : cat === 1 ? head + '.' + rest : rest
			if (cat === 2) S.assumeChars(rest, [[48, 57], [65, 90], [97, 122]])
			const title = value(S, 'title', ['undefined', 'string'])
			const description = value(S, 'description', ['undefined', 'string'])
			const c = { id, ...(title === undefined ? {} : { title }), ...(description === undefined ? {} : { description }), other: 1 }
			const r = formatCommand(c)
			S.eq('the id is kept', r.id, id)
			S.eq('the description is kept', r.description, description)
			if (title !== undefined) S.eq('a declared title wins', r.title, title)
			else if (cat === 1) S.check('the title is made from what follows the category', S.is(r.title, S.fn('sentence', rest)) || S.is(r.title, S.fn('sentence', '.' + rest)))
			else S.check('without a category the whole id makes the title', S.is(r.title, S.fn('sentence', id)))
		}
	},
	// ------------------------------------------------------------------ C11
	'C11.bindings': {
		bounds: '0..1 prefilled and 2 (thorough: 3) added key bindings with symbolic ids',
		async run(S) {
			const pre = S.choose('prefilled', 2) ? [{ id: S.str('p'), key: 'ctrl+p' }] : []
			const n = S.thorough ? 3 : 2
			const cs = []
			for (let i = 0; i < n; i++) cs.push({ id: S.str(`c${i}`), ...(i % 2 ? { mac: S.str(`m${i}`) } : { key: S.str(`k${i}`) }) })
			const { app: a, entries } = await app([keyboardGizmoFn({ keyBindingContributions: pre })])
			const reg = a.keyboard.keyBindingContributions
			const model = [...pre]
			const reported = []
			for (const c of cs) {
				if (model.some(m => m.id === c.id)) reported.push(c.id)
				else model.push(c)
			}
			if (S.choose('together', 2)) reg.add(...cs)
			else for (const c of cs) reg.add(c)
			for (const m of model) S.check('the first key binding of a command is kept, as given', reg.get()[m.id] === m)
			S.eq('no other key binding exists', reg.size(), model.length)
			const errs = loud(entries)
			S.eq('each ignored duplicate is reported', errs.length, reported.length)
			for (let i = 0; i < reported.length; i++) S.check('naming the command', errs[i] && mentions(errs[i], reported[i]))
			const q = S.str('q')
			S.eq('looking up a command finds exactly its binding', reg.has(q), model.some(m => m.id === q))
		}
	},
	'C11.format': {
		bounds: 'symbolic id, key and mac key, each possibly absent or empty; both platforms',
		async run(S) {
			const id = S.str('id')
			const key = value(S, 'key', ['undefined', 'string'])
			const mac = value(S, 'mac', ['undefined', 'string'])
			const m = S.choose('isMac', 2) === 1
			if (S.choose('before', 2)) formatKeyBinding({ os: { isMac: () => !m } }, { id, key: 'k', mac: 'm' })
			const r = formatKeyBinding({ os: { isMac: () => m } }, { id, key, mac })
			S.eq('the id is kept', r.id, id)
			S.eq('mac prefers the mac key and falls back to the default; elsewhere the default key', r.key, m && mac !== undefined ? mac : key)
		}
	}
}
