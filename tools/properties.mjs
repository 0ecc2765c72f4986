// node tools/properties.mjs : writes properties.jsonl and MANIFEST.json from the table below and checks.json
import fs from 'node:fs'
import path from 'node:path'
const ROOT = path.join(path.dirname(new URL(import.meta.url).pathname), '..')
const P = []
const p = (id, title, statement, over, text, why, files, mechanism, observe) =>
	P.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files, mechanism: mechanism.map(([name, where]) => ({ name, where })), observe_at: observe } })

const ST = 'libraries/states/src'
p('C01', 'A state always reads as the last value set, and tells its changes exactly once',
	'After any sequence of sets, updates and resets, reading a state or store gives the value of the last one, and resetting gives the initial value. Every subscriber is told exactly once about each change, with the new and the previous value, in the order of the changes, and is not told when it is set or reset to the very value it already has. A change made by a subscriber while it is being told is applied and told like any other.',
	['inputs', 'histories'], 'every initial value and every sequence of sets, updater calls and resets with any values of any type, including NaN, -0, undefined, functions and objects, and changes made by subscribers',
	'The unit tests try a handful of numbers and objects in one or two steps; they never quantify over the values or the order of operations, nor over nested changes.',
	[`${ST}/state.ts`, `${ST}/store.ts`], [['setter compares with the current value, then notifies', `${ST}/state.ts`], ['reset goes back to the initial value', `${ST}/state.ts`]], ['createState get/set/reset/onChange', 'createStore get/set/reset/onChange'])
p('C02', 'Subscribing and unsubscribing affects one handler, and nothing else',
	'From the moment it subscribes until it unsubscribes, a handler hears every change made to the state, and none made afterwards. Unsubscribing one handler, also repeatedly or while the handlers are being told, neither removes nor skips any other handler.',
	['histories', 'schedules'], 'every sequence of subscribing, unsubscribing (once or repeatedly, also from within a notification) and changing',
	'The tests subscribe and unsubscribe one handler once; repeated or interleaved unsubscription of several handlers is a history they do not sample.',
	[`${ST}/state.ts`, `${ST}/store.ts`, `${ST}/registry.ts`], [['list of handlers and the disposer returned by onChange', `${ST}/state.ts`]], ['disposers returned by onChange'])
p('C03', 'An updater changes the state atomically and leaves earlier values untouched',
	'Updating a state with a function applies exactly what the function wrote or returned: all of it, or, when the function throws, none of it and nobody is told. Values handed out earlier, including the initial value given by the caller, never change, and writing to a field of a value handed out fails. Returning the designated "nothing" marker, and only that, clears the value.',
	['inputs', 'histories', 'fault_sequences'], 'every object or array value, every combination of writes, nested writes, deletions, replacement, clearing, and a throw at any point, repeated',
	'Tests update one field of one object; neither partial failure nor the immutability of all previously observed values is sampled over combinations.',
	[`${ST}/state.ts`, `${ST}/immer.ts`, `${ST}/is_nothing.ts`], [['updates run on an immer draft', `${ST}/state.ts`], ['nothing marker', `${ST}/is_nothing.ts`]], ['createState set(updater)', 'createStore set(updater)', 'isNothing'])
p('C04', 'Asynchronous updates apply their own result once, in whatever order they end',
	'A set given an asynchronous function resolves after the result of that function has been applied, exactly once, whatever that result is (also null, undefined or the cleared marker), whatever other changes happen while it is pending and whatever the order in which several finish. Subscribers are told the value actually replaced as the previous one. A failing function leaves the value alone and the failure reaches the caller.',
	['schedules', 'inputs', 'fault_sequences'], 'every interleaving of pending asynchronous updates and synchronous sets, every resolution order, every outcome including rejection',
	'The tests await a single asynchronous update that returns a number; interleavings, failures and falsy results are not covered.',
	[`${ST}/state.ts`, `${ST}/store.ts`], [['promise branch of the setter', `${ST}/state.ts`]], ['createState set(async updater)', 'createStore set(async updater)'])
p('C05', 'A registry knows exactly the keys that were added to it',
	'A registry reports a key as present, lists it and returns its value exactly when it has been added and not removed since, with the value given last. This holds for every key, including names that objects inherit, symbols and numbers. Counts and listings agree with each other.',
	['inputs', 'histories'], 'every key (any string, also constructor, toString or __proto__, symbols, numbers) and every sequence of adding, overwriting, removing and resetting',
	'Tests register keys such as "a" and "b"; a key colliding with an inherited name, or two dynamic keys that coincide, is never sampled.',
	[`${ST}/registry.ts`], [['own-key lookup over a record in a store', `${ST}/registry.ts`]], ['createRegistry get/has/keys/entries/size/list'])
p('C06', 'Adding entries applies the adder to each, in order, all or nothing',
	'Adding entries to a collection hands every entry, in the given order, to the configured adder, and what the adder produced becomes the value; the two provided adders put entries at the end and at the start in that sense. One call is one change for subscribers. When the adder fails for any entry, nothing is added and nobody is told.',
	['inputs', 'histories', 'fault_sequences'], 'every collection content, number of entries and calls, entries with equal ids, and a failure at any entry',
	'Tests add one or two fixed entries with well-behaved adders.',
	[`${ST}/adder.ts`, `${ST}/store.ts`], [['withAdder, push, unshift', `${ST}/adder.ts`]], ['withAdder(...).add', 'push', 'unshift'])
p('C07', 'Read-only views show the live value but cannot change it; instances are isolated',
	'A read-only view of a state, store or registry always shows the current value and tells the same changes, and offers no way to change it. Instances created separately, even from the same initial value, never affect each other.',
	['inputs', 'histories'], 'every sequence of changes made through the writable side, every pair of instances created alike',
	'Tests check one view after one change; leakage between instances created from a shared initial value is not sampled.',
	[`${ST}/store.ts`, `${ST}/registry.ts`, `${ST}/state.ts`], [['readonly factories', `${ST}/store.ts`]], ['toReadonlyStore', 'toReadonlyRegistry', 'createStore', 'createRegistry'])

const CM = 'plugins/commands/src'
p('C08', 'Invoking a command runs the handler registered last for its id, as called',
	'Invoking a command id runs the handler registered last for exactly that id, once, with the arguments given, and returns what it returns or throws what it throws. Replacing a handler is noted in the log, a first registration is not. When no handler is registered, nothing is run and this is logged as an error, whatever the id is. Looking up and listing handlers agrees with what invoking would do.',
	['inputs', 'histories', 'fault_sequences'], 'every command id (also inherited names such as constructor), every sequence of registrations, any number and values of arguments, handlers that throw or reject',
	'Tests register one or two literal ids; coinciding dynamic ids, inherited names and argument arities are not quantified over.',
	[`${CM}/handlers.ts`, `${CM}/commands_gizmo.ts`], [['handler registry', `${CM}/handlers.ts`]], ['app.commands.handlers.register/invoke/has/keys'])
p('C09', 'A command reaches the handler of the application it was connected to',
	'Calling a command runs the handler in effect in the application it was connected to: the one given last, by definition, by connecting or by registering under its id, in that application. A command that is not connected and has no handler reports that instead of failing silently, and applications on one page never run each other\'s handlers for the built-in command palette.',
	['histories', 'inputs', 'configurations'], 'every order of defining, connecting and registering, every id, declared in one package and implemented in another, one or two applications',
	'Tests exercise one order per test with a single application.',
	[`${CM}/command.ts`, `${CM}/commands.ts`, `${CM}/commands_gizmo.ts`], [['command().defineHandler/connect', `${CM}/command.ts`], ['built-in showCommandPalette', `${CM}/commands.ts`]], ['command(...)', 'showCommandPalette'])
p('C10', 'Contributed commands are listed as contributed and formatted faithfully',
	'Every contributed command is listed under its id; one added for an id that is already listed is ignored and reported, whether contributions are added together or one by one. Formatting a command keeps a given title and description and otherwise derives a readable title from the whole part of its id after the category.',
	['inputs', 'histories'], 'every command id and every sequence and grouping of contributions; titles and descriptions present, empty or absent',
	'Tests contribute one or two fixed commands and format two fixed ids.',
	[`${CM}/contributions.ts`, `${CM}/formatCommand.ts`], [['withAdder rejecting duplicates', `${CM}/contributions.ts`], ['title derivation', `${CM}/formatCommand.ts`]], ['app.commands.contributions', 'formatCommand'])
const KB = 'plugins/keyboard/src'
p('C11', 'Contributed key bindings are kept per command and shown for the platform',
	'Every contributed key binding is listed under its command id; one added for a command that already has one is ignored and reported. Formatting a binding shows the key for the platform: the mac key on a mac when there is one, else the general key, and nothing invented when there is none.',
	['inputs', 'histories', 'configurations'], 'every id and key text, present, empty or absent, every sequence of contributions, mac and other platforms',
	'Tests contribute fixed bindings and format three fixed keys.',
	[`${KB}/keyBindings.ts`, `${KB}/keyboard_gizmo.ts`], [['key binding registry', `${KB}/keyBindings.ts`], ['formatKeyBinding', `${KB}/keyBindings.ts`]], ['app.keyboard.keyBindingContributions', 'formatKeyBinding'])
const BK = 'plugins/browser-keyboard/src'
p('C12', 'In the browser, a bound key runs its command, and only that',
	'After an application starts, pressing the key bound to a command for the platform (ctrl+k, on a mac cmd+k, for the built-in command palette), or triggering it from a program, runs the handler of that command that is current at that moment, and no other key does; the first binding keeps a key that two commands ask for. The bindings in effect follow every later addition, replacement and removal, and those of one application are unaffected by another on the same page that uses other keys.',
	['inputs', 'histories', 'configurations'], 'every key text (default and mac, with "cmd" or "ctrl" anywhere), any order of contributing, starting, replacing and removing, mac and other platforms, one or two applications',
	'Tests bind one fixed key and press it; key texts, later changes to the registry and a second application are not covered.',
	[`${BK}/browser_keyboard_gizmo.ts`, `${BK}/keyBindings.ts`], [['subscription to the registry that binds and unbinds keys', `${BK}/browser_keyboard_gizmo.ts`]], ['the key library\'s bound handlers'])
p('C13', 'Navigation runs exactly the route registered for the path',
	'Navigating to a path runs the route registered for exactly that path, once; navigating without one goes to the initial path, configured last, and navigating to an unknown path runs nothing and is logged. Unregistering removes only the registration it belongs to, whatever was registered since, and applications keep separate routes.',
	['inputs', 'histories', 'fault_sequences'], 'every path (also the empty one and inherited names), every sequence of registering, unregistering, clearing and navigating, routes that throw or change the routes while running',
	'Tests register one or two fixed paths and navigate once.',
	['plugins/routes/src/routes_gizmo.ts'], [['route table', 'plugins/routes/src/routes_gizmo.ts']], ['app.routes.register/navigate/config/clearRoutes'])
const PR = 'plugins/preferences/src'
const BP = 'plugins/browser-preferences/src'
p('C14', 'A preference reads as it was set last, in memory and in the browser alike',
	'A preference reads as the value set last for exactly that key, else as the default given; setting undefined, or a handler returning it or the "nothing" marker, removes it, and clearing removes all. A handler receives the current value, also when it is asynchronous, and the caller learns its completion and its failure. In memory and in browser storage this is the same, through the application and through the commands.',
	['inputs', 'histories', 'schedules', 'fault_sequences'], 'every key and string value, every sequence of setting, updating, removing and clearing, synchronous and asynchronous handlers resolving or failing at any point',
	'Tests set one fixed key once per test; sequences, coinciding keys, pending handlers and failures are not sampled.',
	[`${PR}/preferences.ts`, `${PR}/memory_preferences_gizmo.ts`, `${BP}/browser_preferences_gizmo.ts`], [['getUserPreference/setUserPreference/clear handlers', `${PR}/memory_preferences_gizmo.ts`], ['the same over local storage', `${BP}/browser_preferences_gizmo.ts`]], ['getUserPreference', 'setUserPreference', 'clearUserPreferences', 'clearAllUserPreferences'])
p('C15', 'Browser preferences survive restarts and stay within their application',
	'Preferences kept by the browser are read back unchanged after a restart of the application with the same name, are never visible to one with another name, and clearing them removes all of that application\'s entries and nothing else in the storage. A storage that refuses to store is reported to the caller and leaves the previous value.',
	['inputs', 'histories', 'configurations', 'fault_sequences'], 'every application name, key and string value, any foreign storage content and order of entries, a refusal at any write',
	'Tests use one fixed name and key over an empty storage, and never a failing storage.',
	[`${BP}/browser_preferences_gizmo.ts`], [['key prefix and value encoding', `${BP}/browser_preferences_gizmo.ts`]], ['localStorage', 'getUserPreference'])
p('C16', 'A preference store keeps any JSON value faithfully and never alters its default',
	'A typed preference store reads back exactly the JSON value written to it last, else its default; an update by a handler, in place or by returning, synchronous or asynchronous, is applied, and "nothing" or undefined goes back to the default. The default and values handed out earlier never change.',
	['inputs', 'histories', 'schedules'], 'every JSON value (nested strings with any characters, all numbers, null, arrays, objects) and every sequence of updates in memory and in browser storage',
	'Tests store one fixed object; escaping, in-place updates of defaults and repeated updates are not covered.',
	[`${PR}/preferences.ts`, `${PR}/preferences_gizmo.ts`], [['createPreferenceStore (JSON over string preferences)', `${PR}/preferences.ts`]], ['app.preferences.createStore'])
p('C17', 'Each application uses its own preferences, or the implementation it substitutes',
	'With several applications on one page, reading, setting and clearing through one application acts on that application\'s preferences whatever the order of creation. An application that substitutes its own implementation of any of these operations has it used everywhere.',
	['configurations', 'histories', 'inputs'], 'two applications with either kind of storage created in either order; every key and value; any operation substituted before or after',
	'Tests create one application at a time.',
	[`${PR}/preferences_gizmo.ts`, `${PR}/memory_preferences_gizmo.ts`, `${BP}/browser_preferences_gizmo.ts`], [['operations bound to the commands of the application', `${PR}/preferences_gizmo.ts`]], ['app.preferences', 'app.commands'])
p('C18', 'The language is the one set last, and subscribers hear each change once',
	'The language of an application starts as the one given and is afterwards the one set last, directly or by command. Every subscriber hears each actual change once, with the new and the previous language, and applications do not affect each other.',
	['inputs', 'histories'], 'every language text, every sequence of direct and command changes (also to the same language), any number of subscribers',
	'Tests change the language once to a fixed value.',
	['plugins/i18n/src/i18n_gizmo.ts', 'plugins/i18n/src/commands.ts'], [['language state and set language command', 'plugins/i18n/src/i18n_gizmo.ts']], ['app.i18n.getLanguage/setLanguage/languageChanged', 'setLanguage command'])
p('C19', 'In the browser the chosen language is remembered, else the browser\'s is used',
	'In a browser an application starts in the language chosen last under its name, else in that of the browser. Choosing a language, directly or by command, is remembered for the next start, clearing it goes back to the language of the browser, now and for the next start, and applications with other names are unaffected.',
	['inputs', 'histories', 'configurations'], 'every language text and application name, any stored choice, every sequence of choosing and clearing, followed by a restart',
	'Tests read one fixed stored language.',
	['plugins/browser-i18n/src/browser_i18n_gizmo.ts'], [['language kept as a preference', 'plugins/browser-i18n/src/browser_i18n_gizmo.ts']], ['app.i18n.getLanguage', 'localStorage'])
p('C20', 'Every uncaught browser error is captured and logged once, until cleanup',
	'Every uncaught error from the moment the browser support is installed is captured with its message, position and cause, logged once as an error and told to subscribers, in order. The browser\'s default handling is prevented exactly when asked. Cleaning up one application stops its capturing and that of no other.',
	['histories', 'inputs', 'configurations'], 'every number and content of errors, raised during or after creation, every option, two applications with either cleaned up',
	'Tests dispatch one error with fixed content to one application.',
	['plugins/browser/src/browser_gizmo.ts', 'plugins/browser/src/error_store.ts', 'plugins/browser/src/errors.ts'], [['error listener and error store', 'plugins/browser/src/browser_gizmo.ts']], ['app.browser.errors', 'log entries'])
p('C21', 'Environment access goes to what the application was given, else to the browser',
	'Requests go, once and with the arguments given, to the fetch function given by option, else to the one another part of the application provides, else to the browser\'s. Storages, navigator and location are those given for testing, else the browser\'s.',
	['configurations', 'inputs'], 'every combination of options, gizmos and test variants; any url, request options and response',
	'Tests check a few combinations with fixed urls.',
	['plugins/browser/src/browser_gizmo.ts', 'plugins/fetch/src/fetch_gizmo.ts', 'plugins/browser/src/testing', 'plugins/fetch/src/testing'], [['selection of fetch', 'plugins/browser/src/browser_gizmo.ts'], ['test variants', 'plugins/browser/src/browser_gizmo.testing.ts']], ['app.fetch', 'app.browser'])

// ---- more properties go here
p('C22', 'Every application has its name and a full-length random id of its own',
	'An application has the name it was given (test variants default to "test") and an id of exactly 15 letters and digits, all of them made from random numbers, whatever those are, also when they have few digits. Applications created separately draw their own.',
	['inputs', 'configurations'], 'every name and every sequence of random numbers, including ones with short fractions or none',
	'Random numbers with short fractions are so rare that a test with real randomness never meets one.',
	['frameworks/id/src/id_gizmo.logic.ts', 'frameworks/id/src/id_gizmo.ts', 'frameworks/id/src/id_gizmo.testing.ts'], [['genAppID', 'frameworks/id/src/id_gizmo.logic.ts']], ['app.id', 'app.name'])
p('C23', 'Log messages reach every reporter once, under the name of their application',
	'A message of an enabled level reaches every reporter of its application exactly once, unchanged, at its level and under the id of its logger: the application name, followed by prefix and logger id where given. Messages of other levels reach none; non-console loggers leave consoles alone; options of one logger (level, reporter) affect that logger only; applications do not log into each other.',
	['inputs', 'configurations'], 'every application name, prefix, logger id and message, every level and log level, every kind of logger and set of reporters',
	'Tests log fixed texts through one logger at one level.',
	['frameworks/log/src/log_gizmo.logic.ts', 'frameworks/log/src/log_gizmo.ts', 'frameworks/log/src/log_gizmo.testing.ts', 'frameworks/log/src/logger.ts'], [['buildLogContext', 'frameworks/log/src/log_gizmo.logic.ts'], ['createPrefixedGetLogger', 'frameworks/log/src/logger.ts']], ['app.log', 'log reporters'])
p('C24', 'Creating an application assembles and starts its parts once, in order',
	'Creating an application creates each part once, in the order added, giving it everything provided before; starts them in that order, then runs the initializer, then the start function, each with the whole application. Every value provided is in the application. Creation is then reported once, also when the log was replaced or removed, and each time when one incubator creates several applications. A failure anywhere reaches the creator and nothing runs after it.',
	['configurations', 'fault_sequences', 'inputs'], 'every number and kind of parts, with or without initializer and start function, any replaced log, a failure at any point',
	'Tests create applications with one or two fixed parts and no failures.',
	['frameworks/app/src/just_app.logic.ts', 'frameworks/app/src/just_app.ts', 'frameworks/app/src/just_app.testing.ts'], [['incubateApp', 'frameworks/app/src/just_app.logic.ts']], ['justApp(...).with(...).create(...)', 'justTestApp'])
p('C26', 'Events reach the listeners of their application, and failures are trapped',
	'An event emitted by an application reaches exactly the listeners for its name in that application, in order, once each, with the payload and context given, whether the emitter is the default or a given one. Emitting never throws: what a listener throws is logged once, as it is, by that application.',
	['histories', 'inputs', 'fault_sequences'], 'every event name and payload, any listeners added and removed, any thrown value, default and given emitters, two applications',
	'Tests emit one fixed event to one listener.',
	['plugins/events/src/events_gizmo.ts', 'plugins/events/src/just_event.ts'], [['emitter wrapped to trap errors', 'plugins/events/src/events_gizmo.ts']], ['app.events.emitter', 'justEvent'])
p('C27', 'The platform is a mac exactly when its family says so, or the test does',
	'The operating system is reported as a mac exactly when the platform family is "OS X". The test variant answers as it was told, and like the platform where it was not, without affecting anyone else.',
	['inputs', 'configurations'], 'every platform family, also none, and every option of the test variant',
	'Tests run on one platform.',
	['plugins/os/src/os.ts', 'plugins/os/src/os_gizmo.ts', 'plugins/os/src/os_gizmo.mocks.ts'], [['isMac', 'plugins/os/src/os.ts']], ['isMac', 'app.os.isMac'])
p('C28', 'The browser preset adds the browser parts and keeps the rest of the application',
	'The browser preset gives an application fetch, history, preferences and browser access, each the one given by option, else the one the application or the browser has (history in memory for the test variant), wired to that application\'s commands and log. What the application had before (name, id, log, commands, keyboard) stays the same. Navigation by the history of one application shows there and in the browser or history given to it.',
	['configurations', 'inputs'], 'every combination of options, with or without keyboard and fetch of its own, every name, path, url, key and value',
	'Tests check that members exist for a few combinations.',
	['presets/browser/src/presets_browser_gizmo.ts', 'presets/browser/src/presets_browser_gizmo.mocks.ts', 'plugins/history/src/history_gizmo.ts'], [['composition of the browser gizmos', 'presets/browser/src/presets_browser_gizmo.ts'], ['choice of history', 'plugins/history/src/history_gizmo.ts']], ['members of the application'])
p('C30', 'States of an application behave like any other and log through it',
	'States, stores and registries created through an application start with the value given, apply, tell and reset changes like those created directly, and log through the logger given, else through that application; instances and applications do not affect each other.',
	['inputs', 'histories', 'configurations'], 'every initial and set value, with or without a logger of its own, two applications',
	'Tests create one of each with fixed values.',
	[`${ST}/states_gizmo.ts`], [['createState, createStore, createRegistry of an application', `${ST}/states_gizmo.ts`]], ['app.states'])
p('C31', 'Connecting a public command contributes it and its key, a local one neither',
	'Connecting a command declared with details, once it has a handler, contributes it as declared and, if it has a key for any platform and the application a keyboard, its key binding; a command declared by id alone contributes nothing. Each application it is connected to lists it, others do not. An id already taken keeps its contribution.',
	['inputs', 'configurations'], 'every id and details, each present or absent, with the handler given early, on connecting or not at all, with or without keyboard, one or two applications',
	'Tests connect one or two fixed commands.',
	[`${CM}/command.ts`, `${CM}/contributions.ts`], [['connect', `${CM}/command.ts`]], ['command(...).connect', 'app.commands.contributions', 'app.keyboard.keyBindingContributions'])
p('C32', 'The parts of an application work together in any order, apart from other ones',
	'In an application assembled from its parts in any order their requirements allow, pressing a key, calling a command or invoking its id runs the command once with all its effects on preferences, language, events, states and routes. Nothing done in one application, including clearing everything, affects another one on the same page and storage.',
	['configurations', 'histories', 'inputs'], 'every valid order of the parts, every id, key, path, language, preference and value, in memory or in the browser, two applications',
	'Tests exercise one plugin at a time in one order.',
	['plugins/commands/src/command.ts', 'plugins/browser-keyboard/src/browser_keyboard_gizmo.ts', 'plugins/preferences/src/preferences_gizmo.ts', 'plugins/routes/src/routes_gizmo.ts', 'plugins/browser-i18n/src/browser_i18n_gizmo.ts', 'frameworks/app/src/just_app.logic.ts'], [['registries each part keeps per application', 'plugins/commands/src/commands_gizmo.ts']], ['an assembled application'])
p('C29', 'The storage stand-ins for tests behave like a browser storage',
	'The stand-in storage for tests reads back exactly what was stored last under a key, null for others, and counts and enumerates its entries like a browser storage. The stand-ins for the local and session storage use the replacements given for some methods and the real storage for all others.',
	['inputs', 'histories', 'configurations'], 'every key and value, every sequence of storing, removing and clearing, any index, any replaced method',
	'Tests store one or two fixed keys.',
	['plugins/browser/src/browser_gizmo.testing.ts', 'plugins/browser/src/testing'], [['stubStorage, stubLocalStorage, stubSessionStorage', 'plugins/browser/src/browser_gizmo.testing.ts']], ['stubStorage', 'stubLocalStorage', 'stubSessionStorage'])
p('C33', 'An application formats by the locale, messages and options it was given',
	'A message of the formatting service of an application is the one configured under exactly its id, with its arguments filled in as they are; a missing one is its default text, else its id, and is reported once to the handler configured. Everything configured (locale, default locale, time zone, named formats, rich text elements, cache) takes effect. Applications do not affect each other, also when they share a cache.',
	['inputs', 'configurations'], 'every message id and argument, each part of the configuration given or not, two applications with any pair of some locales, sharing a cache or not',
	'Tests only check that the service exists.',
	['plugins/formatjs/src/formatjs_gizmo.ts', 'plugins/formatjs/src/formatjs_intl.ts'], [['hands configuration and cache to the formatting library', 'plugins/formatjs/src/formatjs_gizmo.ts']], ['app.formatjs.intl'])
p('C34', 'The ready-made test applications are real ones, with what the test gave them',
'The applications that browserKeyboardGizmoTestApp, browserPreferencesGizmoTestApp and setupMemoryPreferencesTestApp create are complete: commands connected to them run, are listed, and their keys are bound for the platform and run them. Preferences read as they were set last and are kept in the storage the test gave, else in that of the browser, under the name given, else "test"; test applications are as separate as their names and storages. throwBrowserError raises exactly one uncaught error, the one given, without throwing at its caller, and resolves to it after it was raised.',
['inputs', 'configurations'], 'every key, value, name, command id and thrown value; two test applications of any kind, sharing a storage or not; both platforms',
'The helpers are used by tests with fixed values, they are not themselves tested.',
['plugins/browser-keyboard/src/browser_keyboard_gizmos.mock.ts', 'plugins/browser-preferences/src/browser_preferences_gizmo.mocks.ts', 'plugins/preferences/src/preferences_gizmo.mocks.ts', 'plugins/browser/src/errors.testing.ts'], [['setupMemoryPreferencesTestApp', 'plugins/preferences/src/preferences_gizmo.mocks.ts'], ['throwBrowserError', 'plugins/browser/src/errors.testing.ts']], ['browserKeyboardGizmoTestApp', 'browserPreferencesGizmoTestApp', 'setupMemoryPreferencesTestApp', 'throwBrowserError'])
p('C40', 'The types of an application list exactly what its gizmos provide',
	'The static type of an application built from gizmos has exactly the members those gizmos provide, and a gizmo whose requirements are not met is rejected by the compiler.',
	['programs'], 'every program that composes gizmos',
	'Type tests check a few compositions.',
	['frameworks/app/src/just_app.types.ts', 'frameworks/app/src/unional_gizmo.ts'], [['type-level inference', 'frameworks/app/src/just_app.types.ts']], ['tsc'])
p('C41', 'Messages are formatted by the rules of the configured locale',
	'The formatting service of an application renders every message, number and date by the rules of the locale and the messages it was configured with.',
	['inputs', 'configurations'], 'every locale, message and argument',
	'Tests check that the service exists.',
	['plugins/formatjs/src/formatjs_gizmo.ts'], [['hands the options to the formatting library', 'plugins/formatjs/src/formatjs_gizmo.ts']], ['app.formatjs.intl'])
const NA = {
	C40: 'The subject is the TypeScript type checker evaluating recursive conditional types; there is no run-time code to execute symbolically, and encoding the checker is out of reach.',
	C41: 'That the rules applied for a locale are the right ones lies in a third-party library\'s parser and in the native ICU of the engine, whose source is not in the repository and cannot be encoded. What the repository does with the configuration is claimed as C33.'
}

const checks = JSON.parse(fs.readFileSync(path.join(ROOT, 'checks.json'), 'utf8'))
const claimed = P.filter(x => !NA[x.id])
for (const x of claimed) if (!checks[x.id]) throw new Error(`no check for ${x.id}`)
for (const k of Object.keys(checks)) if (!claimed.some(x => x.id === k)) throw new Error(`no property for ${k}`)
for (const x of P) if (x.title.length > 80) throw new Error(`title of ${x.id} ${x.title.length}`)
for (const x of P) for (const f of x.anchors.files) if (!fs.existsSync(path.join('/repo', f))) throw new Error(`${x.id}: ${f}`)
for (const x of P) for (const m of x.anchors.mechanism) if (!fs.existsSync(path.join('/repo', m.where))) throw new Error(`${x.id}: ${m.where}`)
fs.writeFileSync(path.join(ROOT, 'properties.jsonl'), P.map(x => JSON.stringify(x)).join('\n') + '\n')
fs.writeFileSync(
	path.join(ROOT, 'MANIFEST.json'),
	JSON.stringify(
		{
			version: 1,
			setup_cmd: 'node tools/setup.mjs',
			checks: claimed.map(x => ({
				property: x.id,
				quick_cmd: `node engine/run.mjs ${x.id}`,
				thorough_cmd: `VERIF_TIER=thorough node engine/run.mjs ${x.id}`,
				technique: 'path-wise symbolic execution of the real TypeScript source, decided by an SMT solver (z3), counterexamples replayed on the uninstrumented source',
				level: 'model_checking',
				level_note:
					(checks[x.id].note ? checks[x.id].note + ' ' : '') +
					'Bounded: exhaustive over all symbolic values and choices within the bounds written to the evidence file; outside them nothing is claimed. Trusts the instrumenter and its model of JavaScript string, number and JSON primitives (every explored path is re-run on the uninstrumented source with the solver\'s model and must give the same observations), z3, esbuild and node.'
			})),
			not_applicable: P.filter(x => NA[x.id]).map(x => ({ property: x.id, reason: NA[x.id] })),
			notes: 'No hooks in /repo: the harnesses import its public entry points and instrument the source on the fly, outside /repo. Set VERIF_VERBOSE=1 for a breakdown, VERIF_JOBS for the number of workers; node engine/replay.mjs <replay file> re-runs a counterexample on the real code.'
		},
		null,
		'\t'
	) + '\n'
)
console.log(`${P.length} properties, ${claimed.length} claimed`)
