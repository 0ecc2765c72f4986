// Whole applications: the parts together, and two of them on one page.
import { incubate } from '@just-web/app'
import { justTestApp } from '@just-web/app/testing'
import { browserGizmoFn } from '@just-web/browser'
import { browserI18nGizmo } from '@just-web/browser-i18n'
import { browserKeyboardGizmo } from '@just-web/browser-keyboard'
import { browserPreferencesGizmo } from '@just-web/browser-preferences'
import { command, commandsGizmoFn } from '@just-web/commands'
import { eventsGizmoFn } from '@just-web/events'
import { i18nGizmoFn, setLanguageCommand } from '@just-web/i18n'
import { keyboardGizmoFn } from '@just-web/keyboard'
import { osGizmo } from '@just-web/os'
import { memoryPreferencesGizmo } from '@just-web/preferences'
import { routesGizmo } from '@just-web/routes'
import { statesGizmo } from '@just-web/states'
import Mousetrap from 'mousetrap'
import { app } from './lib/app.js'
import { recordingLog } from './lib/values.js'

const severe = es => es.filter(e => ['warn', 'error', 'critical', 'alert', 'emergency'].includes(e.level))
const press = k => {
	const b = Mousetrap.__bound().find(b => b.key === k)
	b?.cb({ preventDefault() {} }, k)
	return !!b
}
/** parts and what each has to come after */
const PARTS = {
	keyboard: [() => keyboardGizmoFn()],
	commands: [() => commandsGizmoFn()],
	os: [() => osGizmo],
	preferences: [() => memoryPreferencesGizmo, 'commands'],
	bk: [() => browserKeyboardGizmo, 'keyboard', 'commands', 'os'],
	routes: [() => routesGizmo],
	i18n: [language => i18nGizmoFn({ language })],
	events: [() => eventsGizmoFn()],
	states: [() => statesGizmo]
}
function order(S, names) {
	const out = []
	let left = [...names]
	for (let i = 0; left.length; i++) {
		const ready = left.filter(n => PARTS[n].slice(1).every(d => !left.includes(d)))
		const n = ready.length === 1 ? ready[0] : ready[S.choose(`order${i}`, ready.length)]
		out.push(n)
		left = left.filter(x => x !== n)
	}
	return out
}

export const scenarios = {
	'C32.order': {
		bounds: 'an application of keyboard, commands, platform, preferences and browser keyboard in every valid order, followed by routes, language, events and states (thorough: routes and language in any place); a command with a symbolic id and key connected, whose handler stores a symbolic preference, changes the language, emits an event, changes a state and navigates to a symbolic path; the key pressed, the command called, or invoked by id',
		async run(S) {
			Mousetrap.reset()
			S.platformFamily = 'Linux'
			const core = ['keyboard', 'commands', 'os', 'preferences', 'bk']
			const names = S.thorough ? [...order(S, [...core, 'routes', 'i18n']), 'events', 'states'] : [...order(S, core), 'routes', 'i18n', 'events', 'states']
			const lang0 = S.str('lang0', { max: 3 })
			const { app: a, entries } = await app(names.map(n => PARTS[n][0](lang0)))
			const id = S.str('id')
			const key = S.str('key', { max: 3 })
			S.assumeChars(key, [[97, 122]])
			S.assumeMinLen(key, 1)
			const path = S.str('path', { max: 4 })
			const lang = S.str('lang', { max: 3 })
			const pref = S.str('pref')
			const val = S.str('val')
			const st = a.states.createStore(0)
			const seen = []
			a.routes.register(path, () => void seen.push('route'))
			a.events.emitter.addListener('happened', v => void seen.push(['event', v]))
			a.i18n.languageChanged((n, o) => void seen.push(['language', n, o]))
			st.onChange((n, o) => void seen.push(['state', n, o]))
			const cmd = command({ id, key, title: 'T' })
			cmd.connect(a, () => {
				a.preferences.set(pref, val)
				a.i18n.setLanguage(lang)
				a.events.emitter.emit('happened', val)
				st.set(n => n + 1)
				a.routes.navigate(path)
			})
			S.eq('connecting runs nothing', seen.length, 0)
			S.check('a contributed command is listed, with its key', a.commands.contributions.has(id) && a.keyboard.keyBindingContributions.has(id) && a.commands.handlers.has(id))
			const how = S.choose('how', 3)
			if (how === 0) S.check('its key is bound', press(key))
			else how === 1 ? cmd() : a.commands.handlers.invoke(id)
			S.check('the command runs once, in every way, and everything it does takes effect in order', seen.length === 4 && seen[0][0] === 'language' && seen[1][0] === 'event' && seen[2][0] === 'state' && seen[3] === 'route', JSON.stringify(seen.length))
			if (seen.length === 4) {
				S.check('the language was changed', S.is(seen[0][1], lang) && S.is(seen[0][2], lang0))
				S.eq('the event has its argument', seen[1][1], val)
				S.check('the state was changed', seen[2][1] === 1 && seen[2][2] === 0)
			}
			S.eq('the preference is stored', a.preferences.get(pref), val)
			S.eq('the language is current', a.i18n.getLanguage(), lang)
			S.eq('the state too', st.get(), 1)
			S.eq('nothing to complain about', severe(entries).length, 0)
		}
	},
	'C32.apps': {
		bounds: 'two complete applications (in memory, or over one browser storage and page) with symbolic names, languages, keys and values, created one after the other; everything done in one; then clearing everything there',
		async run(S) {
			Mousetrap.reset()
			S.platformFamily = 'OS X'
			const browser = S.choose('browser', 2)
			const names = [S.str('n0', { max: 4 }), S.str('n1', { max: 4 })]
			S.assume(names[0] !== names[1])
			for (const n of names) S.assumeChars(n, [[97, 122]])
			const rs = []
			for (const i of [0, 1]) {
				const gs = browser
					? [commandsGizmoFn(), keyboardGizmoFn(), osGizmo, browserGizmoFn(), browserPreferencesGizmo, browserI18nGizmo, browserKeyboardGizmo, routesGizmo, eventsGizmoFn(), statesGizmo]
					: [keyboardGizmoFn(), commandsGizmoFn(), osGizmo, memoryPreferencesGizmo, i18nGizmoFn({ language: 'en-US' }), browserKeyboardGizmo, routesGizmo, eventsGizmoFn(), statesGizmo]
				rs.push(await app(gs, { name: names[i] }))
			}
			const i = S.choose('which', 2)
			const [a, o] = [rs[i].app, rs[1 - i].app]
			const path = S.str('path', { max: 4 })
			const pref = S.str('pref', { max: 4 })
			const val = S.str('val', { max: 4 })
			const lang = S.str('lang', { max: 4 })
			const id = S.str('id')
			const heard = []
			for (const [k, x] of [['a', a], ['o', o]]) {
				x.routes.register(path, () => void heard.push(k))
				x.events.emitter.addListener('e', () => void heard.push(`event ${k}`))
				x.i18n.languageChanged(() => void heard.push(`language ${k}`))
			}
			const cmd = command({ id, title: 'T', mac: 'cmd+j' }, () => void heard.push('command'))
			const quiet = rs[1 - i].entries.length
			cmd.connect(a)
			a.preferences.set(pref, val)
			const byCommand = S.choose('byCommand', 2)
			byCommand ? a.commands.handlers.invoke(setLanguageCommand.id, lang) : a.i18n.setLanguage(lang)
			a.events.emitter.emit('e')
			a.routes.navigate(path)
			press('command+j')
			S.check('everything happens in the application it was asked of', heard.join() === 'language a,event a,a,command', heard.join())
			S.eq('its preference is set', a.preferences.get(pref), val)
			S.eq('its language too', a.i18n.getLanguage(), lang)
			S.eq('another application keeps its preferences', o.preferences.get(pref), undefined)
			S.eq('and its language', o.i18n.getLanguage(), 'en-US')
			S.check('and does not know the command', !o.commands.contributions.has(id) && !o.commands.handlers.has(id) && !o.keyboard.keyBindingContributions.has(id))
			S.eq('nothing is logged there but what it was asked to show', severe(rs[1 - i].entries).length, 0)
			o.preferences.set(pref, 'mine')
			a.preferences.clearAll()
			a.routes.clearRoutes()
			S.eq('clearing one', a.preferences.get(pref), undefined)
			S.eq('leaves the preferences of another', o.preferences.get(pref), 'mine')
			S.check('and its routes', !a.routes.hasRoute(path) && o.routes.hasRoute(path))
			S.eq('nothing to complain about', severe(rs[i].entries).length, 0)
		}
	}
}
