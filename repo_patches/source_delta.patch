From 56e4d91b52241d154bd1babf61ef14f2e4a74b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 01/20] fix: disposing a state subscription twice removed
 another handler

---
 libraries/states/src/state.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 3a07c93..343214f 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -89,7 +89,8 @@ export function createState<T>(
 		log.on(logLevels.trace, log => log(`new onChange handler: ${tersify(handler)}`))
 		handlers.push(handler)
 		return () => {
-			handlers.splice(handlers.indexOf(handler), 1)
+			const index = handlers.indexOf(handler)
+			if (index >= 0) handlers.splice(index, 1)
 		}
 	}
 
-- 
2.43.0


From af1db84cd883b2f7dacd1b7615fab54c2c96d557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 02/20] fix: unsubscribing during notification skipped the next
 handler

---
 libraries/states/src/state.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 343214f..568a53d 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -49,7 +49,8 @@ export function createState<T>(
 
 	function notifyAfterSet(old: T, value: T) {
 		log.planck('state changed:', old, value)
-		handlers.forEach(h => {
+		// handlers may unsubscribe while being notified
+		handlers.slice().forEach(h => {
 			h(value, old)
 		})
 		return value
-- 
2.43.0


From fc4796f03aa481e2eefad3013e7f3dcc9f84e872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 03/20] fix: async updaters lose null, the cleared value and
 the previous value

---
 libraries/states/src/state.ts | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 568a53d..9df6fa7 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -73,11 +73,9 @@ export function createState<T>(
 			})
 			if (p) {
 				return p.then(v => {
-					if (v === nothing) {
-						return notifyAfterSet(old, undefined as any)
-					}
-					value = Object.freeze(v ?? r)
-					return notifyAfterSet(old, value)
+					const prev = value
+					value = (v as any) === nothing ? (undefined as any) : Object.freeze(v === undefined ? r : (v as T))
+					return notifyAfterSet(prev, value)
 				})
 			}
 			value = Object.freeze(r)
-- 
2.43.0


From 43a99924a550a8811b8ac44b8172de004060a260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 04/20] fix: registries report entries under inherited names
 such as constructor

---
 libraries/states/src/registry.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libraries/states/src/registry.ts b/libraries/states/src/registry.ts
index 4257f89..baa5b4a 100644
--- a/libraries/states/src/registry.ts
+++ b/libraries/states/src/registry.ts
@@ -1,4 +1,4 @@
-import { type KeyTypes, pick, type Widen } from 'type-plus'
+import { type KeyTypes, pick, record, type Widen } from 'type-plus'
 import type { OnStateChange, ResetState, SetState, StateMeta } from './state.js'
 import { createStore } from './store.js'
 
@@ -22,7 +22,7 @@ export type Registry<K extends KeyTypes, T> = ReadonlyRegistry<K, T> & {
 export type RegistryValue<R extends Registry<any, any>> = ReturnType<R['get']>
 
 export function createRegistry<K extends KeyTypes, T>(
-	init = {} as Record<K, T>,
+	init = record() as Record<K, T>,
 	meta?: StateMeta
 ): Registry<Widen<K>, T> {
 	const store = createStore<Record<Widen<K>, T>>(init as any, meta)
@@ -33,7 +33,7 @@ export function createRegistry<K extends KeyTypes, T>(
 			return [...Object.keys(r), ...Object.getOwnPropertySymbols(r)] as Widen<K>[]
 		},
 		has(key) {
-			return store.get()[key] !== undefined
+			return Object.prototype.hasOwnProperty.call(store.get(), key)
 		},
 		size() {
 			return this.keys().length
-- 
2.43.0


From d512730fd64b5fbf359d5a602f26192e4e83508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 05/20] fix: invoking an unregistered command named like an
 inherited property called that property

---
 plugins/commands/src/handlers.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plugins/commands/src/handlers.ts b/plugins/commands/src/handlers.ts
index a1a1352..6f15af9 100644
--- a/plugins/commands/src/handlers.ts
+++ b/plugins/commands/src/handlers.ts
@@ -1,7 +1,7 @@
 import { type LogGizmo, logLevels } from '@just-web/app'
 import { createRegistry } from '@just-web/states'
 import { tersify } from 'tersify'
-import type { AnyFunction } from 'type-plus'
+import { type AnyFunction, record } from 'type-plus'
 import type { HandlerRegistry } from './types.js'
 
 export namespace handlerRegistry {
@@ -11,7 +11,9 @@ export namespace handlerRegistry {
 export function handlerRegistry({ log }: LogGizmo, options?: handlerRegistry.Options): HandlerRegistry {
 	const logger = log.getLogger('@just-web/commands')
 
-	const registry = createRegistry<string, (...args: any[]) => void>(options)
+	const registry = createRegistry<string, (...args: any[]) => void>(
+		Object.assign(record<string, AnyFunction>(), options)
+	)
 
 	return {
 		/**
-- 
2.43.0


From e8b1c09ebdac02765fdb6b75823d460599e36fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 06/20] fix: title of a command id without a category was its
 last letter

---
 plugins/commands/src/formatCommand.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/commands/src/formatCommand.ts b/plugins/commands/src/formatCommand.ts
index 72db5a9..f0a8147 100644
--- a/plugins/commands/src/formatCommand.ts
+++ b/plugins/commands/src/formatCommand.ts
@@ -11,5 +11,5 @@ export function formatCommand(cmd: CommandContribution) {
 
 function generateTitle(command: string) {
 	const i = command.indexOf('.')
-	return sentenceCase(command.slice(i))
+	return sentenceCase(command.slice(i + 1))
 }
-- 
2.43.0


From 3d7d94b0cccaff1b80d50dd7e4280c661e72992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 07/20] fix: only the first cmd of a key sequence was
 translated

---
 plugins/browser-keyboard/src/keyBindings.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/browser-keyboard/src/keyBindings.ts b/plugins/browser-keyboard/src/keyBindings.ts
index a023dcd..5252dca 100644
--- a/plugins/browser-keyboard/src/keyBindings.ts
+++ b/plugins/browser-keyboard/src/keyBindings.ts
@@ -50,5 +50,5 @@ function getKey(ctx: OSGizmo, keyBinding: any): string {
 }
 
 function toMousetrapKey(key: string) {
-	return key.replace(/cmd\+/, 'command+')
+	return key.replace(/cmd\+/g, 'command+')
 }
-- 
2.43.0


From b24b314e993535842f6ef14a8214b03cd185dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:16 +0000
Subject: [PATCH 08/20] fix: the command palette of one application ran the
 handler of another

---
 plugins/commands/src/commands_gizmo.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plugins/commands/src/commands_gizmo.ts b/plugins/commands/src/commands_gizmo.ts
index 10512bd..e5daa9b 100644
--- a/plugins/commands/src/commands_gizmo.ts
+++ b/plugins/commands/src/commands_gizmo.ts
@@ -1,6 +1,6 @@
 import { type DepBuilder, define, type GizmoStatic, type LogGizmo } from '@just-web/app'
 import type { KeyboardGizmo } from '@just-web/keyboard'
-import { type AnyFunction, extractFunction } from 'type-plus'
+import type { AnyFunction } from 'type-plus'
 import { showCommandPalette } from './commands.js'
 import { contributionRegistry } from './contributions.js'
 import { handlerRegistry } from './handlers.js'
@@ -35,7 +35,8 @@ export const commandsGizmoFn: (options?: CommandsGizmoOptions) => GizmoStatic<
 			commands: {
 				contributions,
 				handlers,
-				showCommandPalette: extractFunction(showCommandPalette)
+				// the command itself follows the application it connected to last
+				showCommandPalette: () => handlers.invoke(showCommandPalette.id)
 			}
 		}
 	}
-- 
2.43.0


From d4e480bcdb0421c4b7b4918edd159613705aa632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 09/20] fix: unregistering a route again removed the route
 registered since

---
 plugins/routes/src/routes_gizmo.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/plugins/routes/src/routes_gizmo.ts b/plugins/routes/src/routes_gizmo.ts
index 4729900..e767565 100644
--- a/plugins/routes/src/routes_gizmo.ts
+++ b/plugins/routes/src/routes_gizmo.ts
@@ -9,7 +9,7 @@ const defaultConfig: RoutesConfigOptions = {
 
 type RouteStore = {
 	config: RoutesConfigOptions
-	routes: Record<string, Route>
+	routes: Record<string, { handler: Route }>
 }
 
 export const routesGizmo = define({
@@ -27,7 +27,7 @@ export const routesGizmo = define({
 				if (!r) log.error(`navigate target not found: '${route}'`)
 				else {
 					log.notice(`navigate to: '${route}'`)
-					r()
+					r.handler()
 				}
 			},
 			register(route: string, handler: Route) {
@@ -36,11 +36,14 @@ export const routesGizmo = define({
 					return () => {}
 				}
 
+				const entry = { handler }
 				store.set(s => {
-					s.routes[route] = handler
+					s.routes[route] = entry
 				})
 
 				return () => {
+					// the route may have been cleared and registered again since
+					if (store.get().routes[route] !== entry) return
 					store.set(s => {
 						delete s.routes[route]
 					})
@@ -74,6 +77,6 @@ function hasRoute(store: Store<RouteStore>, route: string) {
 
 function clearRoutes(store: Store<RouteStore>) {
 	store.set(s => {
-		s.routes = record<string, Route>()
+		s.routes = record<string, { handler: Route }>()
 	})
 }
-- 
2.43.0


From 53d2517ce7b1110732008607164906c73391d12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 10/20] fix: failures and completion of setting a browser
 preference were lost

---
 plugins/browser-preferences/src/browser_preferences_gizmo.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/browser-preferences/src/browser_preferences_gizmo.ts b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
index f89b76b..02566df 100644
--- a/plugins/browser-preferences/src/browser_preferences_gizmo.ts
+++ b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
@@ -29,11 +29,11 @@ export const browserPreferencesGizmo = define({
 			ctx.log.planck(`get: '${k}'`)
 			return getItem(k) ?? defaultValue
 		})
-		setUserPreference.connect(ctx, async (key, value) => {
+		setUserPreference.connect(ctx, (key, value) => {
 			const k = getKey(ctx.name, key)
 			const original = getItem(k)
 			const v = typeof value === 'function' ? produce(original, value as any) : value
-			MaybePromise.transform(v, v => {
+			return MaybePromise.transform(v, v => {
 				if (isNothing(v) || v === undefined) {
 					ctx.log.trace(`set: clear '${k}'`)
 					localStorage.removeItem(k)
-- 
2.43.0


From 7bcd6608e531fa6401787c2a40d6bd522849473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:26 +0000
Subject: [PATCH 11/20] fix: setting a preference to undefined by a handler
 kept the previous value

---
 plugins/browser-preferences/src/browser_preferences_gizmo.ts | 3 +--
 plugins/preferences/src/memory_preferences_gizmo.ts          | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/plugins/browser-preferences/src/browser_preferences_gizmo.ts b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
index 02566df..360e6f5 100644
--- a/plugins/browser-preferences/src/browser_preferences_gizmo.ts
+++ b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
@@ -4,7 +4,6 @@ import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { clearAllUserPreferences, getUserPreference, preferencesGizmo, setUserPreference } from '@just-web/preferences'
 import { isNothing } from '@just-web/states'
-import { produce } from 'immer'
 import { decode, encode } from 'js-base64'
 import { MaybePromise } from 'type-plus'
 
@@ -32,7 +31,7 @@ export const browserPreferencesGizmo = define({
 		setUserPreference.connect(ctx, (key, value) => {
 			const k = getKey(ctx.name, key)
 			const original = getItem(k)
-			const v = typeof value === 'function' ? produce(original, value as any) : value
+			const v = typeof value === 'function' ? (value as any)(original) : value
 			return MaybePromise.transform(v, v => {
 				if (isNothing(v) || v === undefined) {
 					ctx.log.trace(`set: clear '${k}'`)
diff --git a/plugins/preferences/src/memory_preferences_gizmo.ts b/plugins/preferences/src/memory_preferences_gizmo.ts
index facb62b..9ae88ad 100644
--- a/plugins/preferences/src/memory_preferences_gizmo.ts
+++ b/plugins/preferences/src/memory_preferences_gizmo.ts
@@ -2,7 +2,6 @@ import { define, incubate } from '@just-web/app'
 import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { isNothing } from '@just-web/states'
-import { produce } from 'immer'
 import { MaybePromise, record } from 'type-plus'
 import { clearAllUserPreferences, getUserPreference, setUserPreference } from './preferences.js'
 import { preferencesGizmo } from './preferences_gizmo.js'
@@ -33,9 +32,9 @@ export const memoryPreferencesGizmo = define({
 		let storage = record<string, any>()
 		getUserPreference.connect(ctx, (key, defaultValue) => storage[key] ?? defaultValue)
 		setUserPreference.connect(ctx, (key, value) => {
-			const v = typeof value === 'function' ? produce(storage[key], value as any) : value
+			const v = typeof value === 'function' ? (value as any)(storage[key]) : value
 			return MaybePromise.transform(v, v => {
-				if (isNothing(v)) delete storage[key]
+				if (isNothing(v) || v === undefined) delete storage[key]
 				else storage[key] = v
 			})
 		})
-- 
2.43.0


From 57f90e3ea0dc56fffeeeb52486753290baa2b079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:26 +0000
Subject: [PATCH 12/20] fix: in-place updates of a stored preference were lost
 and changed the default

---
 plugins/preferences/src/preferences_gizmo.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/plugins/preferences/src/preferences_gizmo.ts b/plugins/preferences/src/preferences_gizmo.ts
index bfa31bb..564c7e8 100644
--- a/plugins/preferences/src/preferences_gizmo.ts
+++ b/plugins/preferences/src/preferences_gizmo.ts
@@ -49,11 +49,12 @@ export const preferencesGizmo = define({
 					function set(value: SetStateValue<T | undefined> | undefined) {
 						if (isType<Updater<T>>(value, value => typeof value === 'function')) {
 							return self.set(key, v => {
-								const orig: T = v !== undefined ? JSON.parse(v) : defaultValue
-								return MaybePromise.transform(value(orig as any), v => {
-									if (isNothing(v)) return v
-									if (v !== undefined) return JSON.stringify(v)
-								})
+								// work on a copy, so that the default value is not updated in-place
+								const s = v ?? JSON.stringify(defaultValue)
+								const draft: T = s === undefined ? undefined : JSON.parse(s)
+								return MaybePromise.transform(value(draft as any), v =>
+									isNothing(v) ? v : JSON.stringify(v === undefined ? draft : v)
+								)
 							})
 						}
 						const v = value !== undefined ? JSON.stringify(value) : value
-- 
2.43.0


From d39bb958adc3d51765e8c0e6aac247c37459c7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:55 +0000
Subject: [PATCH 13/20] fix: app.preferences used the preferences of the
 application created last

---
 plugins/preferences/src/preferences_gizmo.ts | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/plugins/preferences/src/preferences_gizmo.ts b/plugins/preferences/src/preferences_gizmo.ts
index 564c7e8..ee1b2d9 100644
--- a/plugins/preferences/src/preferences_gizmo.ts
+++ b/plugins/preferences/src/preferences_gizmo.ts
@@ -2,7 +2,7 @@ import { define } from '@just-web/app'
 import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { isNothing, type SetStateValue, type Updater } from '@just-web/states'
-import { type AnyFunction, extractFunction, isType, type JSONTypes, MaybePromise } from 'type-plus'
+import { type AnyFunction, type ExtractFunction, isType, type JSONTypes, MaybePromise } from 'type-plus'
 import { clearAllUserPreferences, getUserPreference, setUserPreference } from './preferences.js'
 
 export type { SetStateValue }
@@ -23,12 +23,17 @@ export type { SetStateValue }
  */
 export const preferencesGizmo = define({
 	static: define.require<CommandsGizmo>().optional<KeyboardGizmo>(),
-	async create() {
+	async create({ commands }) {
 		return {
 			preferences: {
-				get: extractFunction(getUserPreference),
-				set: extractFunction(setUserPreference),
-				clearAll: extractFunction(clearAllUserPreferences),
+				// the commands themselves follow the application they connected to last
+				get: ((...args) => commands.handlers.invoke(getUserPreference.id, ...args)) as ExtractFunction<
+					typeof getUserPreference
+				>,
+				set: ((...args) => commands.handlers.invoke(setUserPreference.id, ...args)) as ExtractFunction<
+					typeof setUserPreference
+				>,
+				clearAll: (): void => commands.handlers.invoke(clearAllUserPreferences.id),
 				/**
 				 * Creates a [store](https://github.com/justland/just-web/tree/main/libraries/states#createstore) for a specific key.
 				 *
-- 
2.43.0


From 0eef2f7f0809cc4c56e3f2778fbf48aeebcd5b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:55 +0000
Subject: [PATCH 14/20] fix: the set language command was never contributed

---
 plugins/i18n/src/i18n_gizmo.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/plugins/i18n/src/i18n_gizmo.ts b/plugins/i18n/src/i18n_gizmo.ts
index 08add07..9d74541 100644
--- a/plugins/i18n/src/i18n_gizmo.ts
+++ b/plugins/i18n/src/i18n_gizmo.ts
@@ -34,8 +34,7 @@ export const i18nGizmoFn = define((options: I18nGizmoOptions) => ({
 			}
 		}
 		if (commands) {
-			setLanguageCommand.connect({ commands, keyboard })
-			commands.handlers.register(setLanguageCommand.id, gizmo.i18n.setLanguage)
+			setLanguageCommand.connect({ commands, keyboard }, gizmo.i18n.setLanguage)
 		}
 
 		return gizmo
-- 
2.43.0


From ee0313c7e2f5c26782f57bc7edc517e04ac78c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:55 +0000
Subject: [PATCH 15/20] fix: generated app ids could be shorter than 15
 characters

---
 frameworks/id/src/id_gizmo.logic.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/frameworks/id/src/id_gizmo.logic.ts b/frameworks/id/src/id_gizmo.logic.ts
index b4c7ec3..0734c43 100644
--- a/frameworks/id/src/id_gizmo.logic.ts
+++ b/frameworks/id/src/id_gizmo.logic.ts
@@ -1,5 +1,8 @@
 export const logic = {
 	genAppID() {
-		return (Math.random().toString(36).slice(2) + Math.random().toString(36).slice(2)).substring(0, 15)
+		let id = ''
+		// a random number can have few digits, or none at all
+		while (id.length < 15) id += Math.random().toString(36).slice(2)
+		return id.substring(0, 15)
 	}
 }
-- 
2.43.0


From f7d7048cb8f524406b85cc9fd0e2b0a1407e4ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:55 +0000
Subject: [PATCH 16/20] fix: stubStorage().key() returned a key for negative
 indexes

---
 plugins/browser/src/browser_gizmo.testing.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugins/browser/src/browser_gizmo.testing.ts b/plugins/browser/src/browser_gizmo.testing.ts
index f5d478f..8a87c04 100644
--- a/plugins/browser/src/browser_gizmo.testing.ts
+++ b/plugins/browser/src/browser_gizmo.testing.ts
@@ -43,6 +43,7 @@ export function stubStorage(): Storage {
 			return m.size
 		},
 		key(index) {
+			if (index < 0) return null
 			let c = 0
 			for (const e of m.keys()) {
 				if (++c > index) return e
-- 
2.43.0


From 79631a51cb3737a91269770cccb3c438abc4fd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 17/20] fix: key binding changes of one application removed the
 shortcuts of another

---
 plugins/browser-keyboard/src/keyBindings.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/plugins/browser-keyboard/src/keyBindings.ts b/plugins/browser-keyboard/src/keyBindings.ts
index 5252dca..7f9f510 100644
--- a/plugins/browser-keyboard/src/keyBindings.ts
+++ b/plugins/browser-keyboard/src/keyBindings.ts
@@ -5,25 +5,26 @@ import type { OSGizmo } from '@just-web/os'
 import Mousetrap from 'mousetrap'
 import { forEachKey, record } from 'type-plus'
 
-let keys: Record<string, boolean>
 export function startKeyBindings(param: LogGizmo & KeyboardGizmo & CommandsGizmo & OSGizmo) {
 	const keyBindings = param.keyboard.keyBindingContributions
 
-	keys = record()
+	// the keys bound by this application
+	let keys: Record<string, boolean> = record()
 
 	keyBindings.values().forEach(keybinding => {
-		bindKey(param, keybinding)
+		bindKey(param, keys, keybinding)
 	})
 	keyBindings.onChange(value => {
-		Mousetrap.reset()
+		Mousetrap.unbind(Object.keys(keys).map(toMousetrapKey))
 		keys = record()
 		// @todo: use `immer` patch support to only update the delta
-		forEachKey(value, name => bindKey(param, value[name]!))
+		forEachKey(value, name => bindKey(param, keys, value[name]!))
 	})
 }
 
 function bindKey(
 	{ log: logContext, commands, os }: LogGizmo & CommandsGizmo & OSGizmo,
+	keys: Record<string, boolean>,
 	keyBinding: KeyBindingContribution
 ) {
 	const key = getKey({ os }, keyBinding)
-- 
2.43.0


From 173d00d7480aafb9bd35666950a800f986e3448c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:13 +0000
Subject: [PATCH 18/20] fix: a later key binding took over the same key spelled
 differently

---
 plugins/browser-keyboard/src/keyBindings.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/plugins/browser-keyboard/src/keyBindings.ts b/plugins/browser-keyboard/src/keyBindings.ts
index 7f9f510..be2a13a 100644
--- a/plugins/browser-keyboard/src/keyBindings.ts
+++ b/plugins/browser-keyboard/src/keyBindings.ts
@@ -15,7 +15,7 @@ export function startKeyBindings(param: LogGizmo & KeyboardGizmo & CommandsGizmo
 		bindKey(param, keys, keybinding)
 	})
 	keyBindings.onChange(value => {
-		Mousetrap.unbind(Object.keys(keys).map(toMousetrapKey))
+		Mousetrap.unbind(Object.keys(keys))
 		keys = record()
 		// @todo: use `immer` patch support to only update the delta
 		forEachKey(value, name => bindKey(param, keys, value[name]!))
@@ -30,12 +30,13 @@ function bindKey(
 	const key = getKey({ os }, keyBinding)
 	if (key) {
 		const log = logContext.getLogger('@just-web/browser-keyboard')
-		if (keys[key]) {
+		const mousetrapKey = toMousetrapKey(key)
+		if (keys[mousetrapKey]) {
 			log.warn(`Registering a duplicate key binding, ignored: ${keyBinding.id} - ${key}`)
 		} else {
-			keys[key] = true
+			keys[mousetrapKey] = true
 			log.trace(`binding: ${key} -> ${keyBinding.id}`)
-			Mousetrap.bind(toMousetrapKey(key), e => {
+			Mousetrap.bind(mousetrapKey, e => {
 				log.trace(`trigger ${key}`)
 				if (e.preventDefault) e.preventDefault()
 				commands.handlers.invoke(keyBinding.id)
-- 
2.43.0


From 74e0d9f948e39abe01ac72854efa821d7a6a0a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 19/20] fix: a frozen or primitive value thrown in the browser
 was not captured as it is

---
 plugins/browser/src/errors.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plugins/browser/src/errors.ts b/plugins/browser/src/errors.ts
index 08d9205..5945f65 100644
--- a/plugins/browser/src/errors.ts
+++ b/plugins/browser/src/errors.ts
@@ -14,6 +14,8 @@ export class BrowserError extends JustWebBrowserError {
 		public colno?: number,
 		error?: Error
 	) {
-		super(event.toString(), { cause: error })
+		super(event.toString())
+		// assigned here as `iso-error` alters the cause it is given, which fails when that is frozen or a primitive
+		if (error !== undefined && error !== null) this.cause = error
 	}
 }
-- 
2.43.0


From d6db8b8c29fdf079921c2225ad54d6c195a9d765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 20/20] fix: the fetch of the test gizmo could not be called as
 a method of the application in a browser

---
 plugins/fetch/src/fetch_gizmo.mocks.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/fetch/src/fetch_gizmo.mocks.ts b/plugins/fetch/src/fetch_gizmo.mocks.ts
index ded1479..0a961a0 100644
--- a/plugins/fetch/src/fetch_gizmo.mocks.ts
+++ b/plugins/fetch/src/fetch_gizmo.mocks.ts
@@ -9,7 +9,7 @@ export const fetchTestGizmoFn = (options?: FetchTestGizmoOptions) =>
 	define({
 		create() {
 			return {
-				fetch: options?.fetch ?? (fetch as Fetch)
+				fetch: options?.fetch ?? (globalThis.fetch.bind(globalThis) as Fetch)
 			}
 		}
 	})
-- 
2.43.0

