import { createRequire } from 'node:module'
import fs from 'node:fs'
import path from 'node:path'
import { instrument } from './instrument.mjs'
const require = createRequire('/opt/veriftools/node/node_modules/')
const esbuild = require('esbuild')

export const REPO = process.env.VERIF_REPO ?? '/repo'
const HERE = path.dirname(new URL(import.meta.url).pathname)
const HARNESS = path.join(HERE, '..', 'harness')

const DIRS = ['frameworks', 'libraries', 'plugins', 'presets']
function packageDirs() {
	const m = new Map()
	for (const d of DIRS) {
		const root = path.join(REPO, d)
		if (!fs.existsSync(root)) continue
		for (const p of fs.readdirSync(root)) {
			const pj = path.join(root, p, 'package.json')
			if (fs.existsSync(pj)) m.set(JSON.parse(fs.readFileSync(pj, 'utf8')).name, path.join(root, p))
		}
	}
	return m
}

function plugin(symbolic, stubs) {
	return {
		name: 'repo',
		setup(b) {
			const pkgs = packageDirs()
			b.onResolve({ filter: /^@just-web\// }, args => {
				const [scope, name, ...rest] = args.path.split('/')
				const dir = pkgs.get(`${scope}/${name}`)
				if (!dir) return
				const file = path.join(dir, 'src', ...rest, 'index.ts')
				return { path: file }
			})
			b.onResolve({ filter: /^[a-z@][^:]*$/ }, args => {
				const s = stubs[args.path]
				if (s && args.pluginData !== 'x') return { path: path.join(HARNESS, 'stubs', s) }
				// harness files resolve third-party packages the way the repository does
				if (args.importer.startsWith(HARNESS) && !args.path.startsWith('.') && args.pluginData !== 'x') {
					for (const from of ['libraries/states', 'frameworks/app', 'plugins/commands', 'plugins/browser-preferences', 'plugins/history', 'plugins/browser', 'frameworks/log', 'plugins/browser-keyboard', 'plugins/os', 'plugins/formatjs', 'plugins/events'])
						if (fs.existsSync(path.join(REPO, from, 'node_modules', ...args.path.split('/'))))
							return b.resolve(args.path, { resolveDir: path.join(REPO, from), kind: args.kind, pluginData: 'x' })
				}
			})
		}
	}
}

/** third-party modules replaced while executing symbolically */
const SYMBOLIC_STUBS = {
	'js-base64': 'base64.js',
	tersify: 'tersify.js',
	'sentence-case': 'sentence_case.js',
	mousetrap: 'mousetrap.js',
	platform: 'platform.js'
}
/** third-party modules replaced in the concrete replay: host-environment bindings only */
const PLAIN_STUBS = { mousetrap: 'mousetrap.js', platform: 'platform.js' }

async function build(harness, symbolic) {
	const r = await esbuild.build({
		stdin: {
			contents: `import './env.js'\nexport * from './${harness}.js'`,
			resolveDir: HARNESS,
			sourcefile: '__entry.js',
			loader: 'js'
		},
		bundle: true,
		write: false,
		format: 'iife',
		globalName: '__H',
		platform: 'browser',
		mainFields: ['browser', 'module', 'main'],
		conditions: ['import', 'default'],
		target: 'es2019',
		tsconfigRaw: '{}',
		charset: 'utf8',
		logLevel: 'silent',
		metafile: true,
		absWorkingDir: REPO,
		plugins: [plugin(symbolic, symbolic ? SYMBOLIC_STUBS : PLAIN_STUBS)]
	})
	return { code: r.outputFiles[0].text, inputs: r.metafile.inputs }
}

const PARAMS = '$, S'
export async function buildHarness(harness) {
	const sym = await build(harness, true)
	const plain = await build(harness, false)
	const symCode = `(function(${PARAMS}){"use strict";var $v;\n${instrument(sym.code)}\nreturn __H})`
	const plainCode = `(function(${PARAMS}){"use strict";\n${plain.code}\nreturn __H})`
	const repoInputs = Object.keys(sym.inputs)
		.map(p => path.resolve(REPO, p))
		.filter(p => p.startsWith(REPO + '/') && !p.includes('node_modules'))
		.map(p => path.relative(REPO, p))
	return { symCode, plainCode, repoInputs, bytes: sym.code.length }
}
