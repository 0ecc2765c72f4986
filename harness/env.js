// The browser's globals, installed before any module of the repository is evaluated.
import { memStorage } from './lib/storage.js'
const def = (k, value) => Object.defineProperty(globalThis, k, { value, writable: true, configurable: true })
const listeners = []
// like the browser, its functions refuse to be methods of something else
const own = t => {
	if (t !== undefined && t !== globalThis) throw new TypeError('Illegal invocation')
}
def('window', globalThis)
def('localStorage', memStorage())
def('sessionStorage', memStorage())
def('navigator', { language: 'en-US', userAgent: 'verif' })
def('location', { href: 'http://localhost/' })
def('document', { defaultView: globalThis })
def('history', { state: null, pushState() {}, replaceState() {}, go() {} })
def('addEventListener', function (type, fn) {
	own(this)
	if (!listeners.some(l => l.type === type && l.fn === fn)) listeners.push({ type, fn })
})
def('removeEventListener', function (type, fn) {
	own(this)
	const i = listeners.findIndex(l => l.type === type && l.fn === fn)
	if (i >= 0) listeners.splice(i, 1)
})
def('__listeners', listeners)
def('fetch', function globalFetch(...args) {
	own(this)
	return { from: 'global', args }
})
