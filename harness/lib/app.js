// Assembles an application from the repository's gizmos over a recording log.
import { incubate } from '@just-web/app'
import { recordingLog } from './values.js'
export async function app(gizmos, over = {}) {
	const rec = recordingLog()
	let b = incubate().merge({ name: 'app', id: 'id', ...rec.log && { log: rec.log }, ...over })
	for (const g of gizmos) b = b.with(g)
	const a = await b.create()
	return { app: a, entries: rec.entries, at: level => rec.entries.filter(e => e.level === level) }
}
/** the text of a log entry's arguments */
export const text = e => e.args.map(a => (typeof a === 'string' ? a : String(a))).join(' ')
