import { command, commandsGizmoFn } from '@just-web/commands'
import { keyboardGizmoFn } from '@just-web/keyboard'
import { i18nGizmoFn, setLanguageCommand } from '@just-web/i18n'
import { browserI18nGizmo } from '@just-web/browser-i18n'
import { app } from './lib/app.js'
import { memStorage } from './lib/storage.js'

const severe = es => es.filter(e => e.level === 'error' || e.level === 'warn' || e.level === 'critical')
/** stands for the browser gizmo: its storage and navigator are the environment */
const browser = (storage, language) => ({ create: async () => ({ browser: { localStorage: storage, navigator: { language } } }) })

export const scenarios = {
	'C18.changes': {
		bounds: 'symbolic initial language; 2 (thorough: 3) changes to symbolic languages (may repeat), directly or by command, with 0..3 subscribers added at symbolic points',
		async run(S) {
			const init = S.str('init')
			const cmds = S.choose('commands', 3)
			const { app: a, entries } = await app([...(cmds > 1 ? [keyboardGizmoFn()] : []), ...(cmds ? [commandsGizmoFn()] : []), i18nGizmoFn({ language: init })])
			S.eq('the initial language is the one given', a.i18n.getLanguage(), init)
			const log = []
			const subs = []
			const subscribe = n => {
				const id = subs.length
				const listener = (now, old) => {
					log.push([id, now, old])
					S.eq('subscribers already see the new language', a.i18n.getLanguage(), now)
				}
				a.i18n.languageChanged(listener)
				subs.push(id)
			}
			subscribe()
			if (S.choose('second', 2)) subscribe()
			let current = init
			const steps = S.thorough ? 3 : 2
			const late = S.choose('late', steps + 1)
			for (let i = 0; i < steps; i++) {
				if (late === i + 1) subscribe()
				const next = S.str(`l${i}`)
				log.length = 0
				const via = cmds ? S.choose(`via${i}`, 3) : 0
				if (via === 0) a.i18n.setLanguage(next)
				else if (via === 1) a.commands.handlers.invoke(setLanguageCommand.id, next)
				else setLanguageCommand(next)
				S.eq('the language is the one set last', a.i18n.getLanguage(), next)
				// hearing that nothing changed is allowed
				if (S.is(next, current) && !log.length) continue
				S.eq('every subscriber is told once', log.length, subs.length)
				for (const [k, e] of log.entries()) {
					S.check('in order of subscription', e[0] === subs[k])
					S.eq('with the new language', e[1], next)
					S.eq('and the previous one', e[2], current)
				}
				current = next
			}
			S.check('nothing is reported', severe(entries).length === 0)
			if (cmds) {
				S.check('the command is discoverable', a.commands.contributions.has(setLanguageCommand.id))
				S.check('and can be invoked by id', a.commands.handlers.has(setLanguageCommand.id))
			}
		}
	},
	'C18.nested': {
		bounds: 'the first or last of two subscribers sets another symbolic language, directly or by command, when it is told of a change',
		async run(S) {
			const { app: a } = await app([commandsGizmoFn(), i18nGizmoFn({ language: 'en' })])
			const l = `a${S.str('l')}`
			const m = `b${S.str('m')}`
			const log = []
			const by = S.choose('by', 2)
			const how = S.choose('how', 2)
			let done = false
			const change = () => {
				if (done) return
				done = true
				how ? setLanguageCommand(m) : a.i18n.setLanguage(m)
				S.eq('it is the language at once', a.i18n.getLanguage(), m)
			}
			const hear = (now, old) => void log.push([now, old])
			if (by) a.i18n.languageChanged(hear)
			a.i18n.languageChanged(change)
			if (!by) a.i18n.languageChanged(hear)
			a.i18n.setLanguage(l)
			S.eq('and stays', a.i18n.getLanguage(), m)
			S.eq('both changes are told, once', log.length, 2)
			S.check('the one from outside', log.some(e => S.is(e[0], l) && S.is(e[1], 'en')))
			S.check('and the one from within', log.some(e => S.is(e[0], m) && S.is(e[1], l)))
		}
	},
	'C18.apps': {
		bounds: 'two applications with symbolic languages; a change in either',
		async run(S) {
			const la = S.str('la')
			const lb = S.str('lb')
			const A = (await app([commandsGizmoFn(), i18nGizmoFn({ language: la })])).app
			const B = (await app([commandsGizmoFn(), i18nGizmoFn({ language: lb })])).app
			const log = []
			A.i18n.languageChanged(() => log.push('a'))
			B.i18n.languageChanged(() => log.push('b'))
			const next = S.str('next')
			const who = S.choose('who', 2)
			const t = who ? A : B
			if (S.choose('via', 2)) t.commands.handlers.invoke(setLanguageCommand.id, next)
			else t.i18n.setLanguage(next)
			S.eq('the application changed has the new language', t.i18n.getLanguage(), next)
			S.eq('the other application keeps its language', (who ? B : A).i18n.getLanguage(), who ? lb : la)
			S.check('only subscribers of the changed application are told', log.join() === (who ? 'a' : 'b'))
		}
	},
	'C19.persist': {
		bounds: 'symbolic stored, browser and set languages and application name; in a new application or one restarted with a language; 2 (thorough: 3) of {set, set by command, clear}; then a restart over the same storage',
		async run(S) {
			const name = S.str('name')
			const nav = S.str('nav')
			const storage = memStorage()
			storage.setItem('foreign', 'x')
			const cmds = S.choose('commands', 2)
			const mk = over => app([browser(storage, over ?? nav), ...(cmds ? [commandsGizmoFn()] : []), browserI18nGizmo], { name })
			const restarted = S.choose('restarted', 2)
			const was = restarted ? S.str('was') : nav
			if (restarted) (await mk()).app.i18n.setLanguage(was)
			let { app: a } = await mk()
			S.eq('without a stored language the browser language is used, else the stored one', a.i18n.getLanguage(), was)
			S.eq('reading the language stores nothing', storage.length, 1 + restarted)
			const log = []
			a.i18n.languageChanged((n, o) => log.push([n, o]))
			let stored = restarted ? was : undefined
			let current = was
			const steps = S.thorough ? 3 : 2
			for (let i = 0; i < steps; i++) {
				const op = S.choose(`op${i}`, 3 + cmds)
				log.length = 0
				const prev = current
				if (op === 0) {
					a.i18n.clearLanguage()
					stored = undefined
					current = nav
				} else if (op === 1 || op === 3) {
					const l = S.str(`l${i}`)
					if (op === 1) a.i18n.setLanguage(l)
					else setLanguageCommand(l)
					stored = current = l
				} else continue
				S.eq('the current language follows', a.i18n.getLanguage(), current)
				S.check('subscribers are told of the change, with the previous language', (log.length === 1 && log[0][0] === current && log[0][1] === prev) || (!log.length && current === prev))
			}
			S.eq('the stored entry is the language, or nothing after clearing', storage.length, stored === undefined ? 1 : 2)
			if (stored !== undefined) S.eq('the language is stored as it is', storage.__entries[1][1], stored)
			const nav2 = S.str('nav2')
			const b = (await mk(nav2)).app
			S.eq('a restart restores the language set, otherwise the browser language', b.i18n.getLanguage(), stored === undefined ? nav2 : stored)
			S.eq('other entries of the storage are left alone', storage.getItem('foreign'), 'x')
		}
	},
	'C19.apps': {
		bounds: 'two applications with different symbolic names over one storage; either sets or clears its language',
		async run(S) {
			const na = S.str('na')
			const nb = S.str('nb')
			S.assumeNe(na, nb)
			const storage = memStorage()
			const mk = async name => (await app([browser(storage, 'nav'), browserI18nGizmo], { name })).app
			const A = await mk(na)
			const B = await mk(nb)
			const la = S.str('la')
			const lb = S.str('lb')
			const first = S.choose('first', 2)
			if (first) A.i18n.setLanguage(la)
			B.i18n.setLanguage(lb)
			if (!first) A.i18n.setLanguage(la)
			S.eq('the language of an application is its own', A.i18n.getLanguage(), la)
			const clear = S.choose('clear', 2)
			if (clear) A.i18n.clearLanguage()
			S.eq('after a restart each application has its own language', (await mk(nb)).i18n.getLanguage(), lb)
			S.eq('also the one that cleared it', (await mk(na)).i18n.getLanguage(), clear ? 'nav' : la)
		}
	}
}
