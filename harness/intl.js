import { createIntlCache, formatJSGizmoFn } from '@just-web/formatjs'
import { app } from './lib/app.js'

const LOCALES = ['en', 'de', 'fr']
const HELLO = ['Hello', 'Hallo', 'Bonjour']
/** ids that are a text a program would write; the library asks for one that is not empty */
const idOf = (S, n) => {
	const id = S.str(n)
	S.assume(id !== '')
	return id
}

const plain = v => typeof v === 'object' && v !== null
function has(S, intl, config) {
	for (const c of Object.keys(config))
		if (plain(config[c])) S.deep('the service has the configuration given', intl[c], config[c])
		else S.check('all of it', intl[c] === config[c])
}

export const scenarios = {
	// ------------------------------------------------------------------ C33: formatting
	'C33.messages': {
		bounds: 'one of three locales, one configured message with a symbolic id and a symbolic argument; queried with a symbolic id, with or without a default text; default locale given or not',
		async run(S) {
			const k = S.choose('locale', 3)
			const errs = []
			const id = idOf(S, 'id')
			const q = S.choose('other', 2) ? idOf(S, 'q') : id
			const args = S.choose('args', 2)
			const config = { locale: LOCALES[k], onError: e => void errs.push(e), messages: args ? { [id]: `${HELLO[k]} {name}!` } : { [id]: HELLO[k] } }
			const dl = S.choose('defaultLocale', 2)
			if (dl) config.defaultLocale = 'de'
			const { app: a, entries } = await app([formatJSGizmoFn({ config })])
			const { intl } = a.formatjs
			has(S, intl, config)
			S.eq('and by default english as default locale', intl.defaultLocale, dl ? 'de' : 'en')
			const name = S.str('name')
			const dflt = S.choose('default', 2)
			const out = intl.formatMessage({ id: q, ...(dflt && { defaultMessage: args ? 'default {name}' : 'default' }) }, ...(args ? [{ name }] : []))
			const known = S.is(q, id)
			const expected = known ? (args ? `${HELLO[k]} ${name}!` : HELLO[k]) : dflt ? (args ? `default ${name}` : 'default') : q
			S.eq('a message is the one configured under its id, else its default text, else its id', out, expected)
			const silent = known || (dflt && LOCALES[k] === (dl ? 'de' : 'en'))
			S.eq('a missing translation is reported once to the handler configured', errs.length, silent ? 0 : 1)
			S.check('and nowhere else', entries.every(e => e.level !== 'error' && e.level !== 'warn'))
		}
	},
	'C33.reused': {
		bounds: 'two or three applications made from one configuration object, or copies of it, its message or locale changed in between, sharing a cache or not; symbolic argument',
		async run(S) {
			const same = S.choose('same', 2)
			const cache = S.choose('cache', 2) ? createIntlCache() : undefined
			const what = S.choose('what', 4)
			const text = 'changed'
			const name = S.str('name', { max: 3 })
			const errs = []
			const config = { locale: 'en', messages: { a: 'first {name}' }, onError: e => void errs.push(e) }
			const mk = async () => (await app([formatJSGizmoFn({ config: same ? config : { ...config, messages: { ...config.messages } }, ...(cache && { cache }) })])).app.formatjs.intl
			const first = await mk()
			if (S.choose('asked', 2)) S.eq('the first formats its message', first.formatMessage({ id: 'a' }, { name }), `first ${name}`)
			if (what === 1) config.messages = { a: text, b: `${text} {name}` }
			if (what === 2) config.locale = 'de'
			if (what === 3) config.defaultLocale = 'fr'
			const second = await mk()
			S.check('each has a service of its own', first !== second)
			S.eq('the second formats as configured when it was made', second.formatMessage({ id: 'a' }, { name }), what === 1 ? text : `first ${name}`)
			if (what === 1) S.eq('all its messages', second.formatMessage({ id: 'b' }, { name }), `${text} ${name}`)
			S.eq('in its locale', second.locale, what === 2 ? 'de' : 'en')
			S.eq('and default locale', second.defaultLocale, what === 3 ? 'fr' : 'en')
			S.eq('no error', errs.length, 0)
		}
	},
	'C33.apps': {
		bounds: 'two applications with any of three locales each and messages of their own under symbolic ids; sharing a cache, with caches of their own or without; symbolic arguments; numbers, plurals and lists; either asked first',
		async run(S) {
			const ks = [S.choose('k0', 3), S.choose('k1', 3)]
			const caching = S.choose('cache', 3)
			const shared = createIntlCache()
			const caches = [0, 1].map(() => (caching === 1 ? shared : caching === 2 ? createIntlCache() : undefined))
			const ids = [idOf(S, 'id0'), idOf(S, 'id1')]
			for (const id of ids) S.assumeNe(id, 'count')
			const errs = [[], []]
			const as = []
			for (const i of [0, 1])
				as.push(
					(
						await app([
							formatJSGizmoFn({
								config: { locale: LOCALES[ks[i]], defaultLocale: 'xx', messages: { [ids[i]]: `${i}: ${HELLO[ks[i]]} {name}`, count: '{n, plural, =0 {none} one {# one} other {# many}}' }, onError: e => void errs[i].push(e) },
								...(caches[i] && { cache: caches[i] })
							})
						])
					).app
				)
			const first = S.choose('first', 2)
			const name = S.str('name')
			for (const i of first ? [1, 0] : [0, 1]) {
				const unused = caching === 2 && i !== first && caches[i]
				if (unused) S.eq('a cache is not used by another application', Object.keys(unused.number).length + Object.keys(unused.message).length, 0)
				const { intl } = as[i].formatjs
				S.eq('each application has its own locale', intl.locale, LOCALES[ks[i]])
				S.eq('and messages', intl.formatMessage({ id: ids[i] }, { name }), `${i}: ${HELLO[ks[i]]} ${name}`)
				S.eq('numbers are written as in its locale', intl.formatNumber(1234.5), new Intl.NumberFormat(LOCALES[ks[i]]).format(1234.5))
				S.eq('plurals follow its rules', intl.formatMessage({ id: 'count' }, { n: i ? 1 : 1500 }), i ? '1 one' : `${new Intl.NumberFormat(LOCALES[ks[i]]).format(1500)} many`)
				S.eq('no error', errs[i].length, 0)
			}
			const other = as[0].formatjs.intl.formatMessage({ id: ids[1] })
			if (!S.is(ids[0], ids[1])) S.check('messages of another application are unknown', S.is(other, ids[1]) && errs[0].length === 1 && errs[1].length === 0)
			for (const i of [0, 1]) if (caches[i]) S.check('a cache given is used', Object.keys(caches[i].number).length > 0)
		}
	},
	'C33.config': {
		bounds: 'time zone, named formats, rich text elements and fallback for empty messages configured or not; one gizmo used for two applications',
		async run(S) {
			const config = { locale: 'en', onError: () => {} }
			const tz = S.choose('timeZone', 2)
			if (tz) config.timeZone = 'Asia/Tokyo'
			const fmt = S.choose('formats', 2)
			if (fmt) config.formats = { number: { two: { minimumFractionDigits: 2 } } }
			const rich = S.choose('rich', 2)
			if (rich) config.defaultRichTextElements = { b: parts => `<${parts.join('')}>` }
			const empty = S.choose('empty', 2)
			if (empty) config.fallbackOnEmptyString = false
			config.messages = { bold: 'a <b>{x}</b>', empty: '' }
			const g = formatJSGizmoFn({ config })
			const as = [(await app([g])).app, (await app([g])).app]
			const { intl } = as[S.choose('app', 2)].formatjs
			has(S, intl, config)
			if (tz) S.eq('times are those of the zone', intl.formatTime(0, { hour: 'numeric', minute: 'numeric', hour12: false }), '09:00')
			if (fmt) S.eq('numbers can be written in the named formats', intl.formatNumber(1, { format: 'two' }), '1.00')
			const x = S.str('x')
			if (rich) S.eq('rich text elements are filled in', intl.formatMessage({ id: 'bold' }, { x }), `a <${x}>`)
			S.eq('an empty message stays empty only when asked', intl.formatMessage({ id: 'empty', defaultMessage: 'dflt' }, { x }), empty ? '' : 'dflt')
		}
	}
}
