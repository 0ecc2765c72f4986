// Rewrites a JavaScript bundle so that every operation that can observe a value goes through
// the symbolic runtime `$`. The text is regenerated from the current source on every run.
import { createRequire } from 'node:module'
const require = createRequire('/opt/veriftools/node/node_modules/')
const ts = require('typescript')
const f = ts.factory
const K = ts.SyntaxKind

const $ = name => f.createPropertyAccessExpression(f.createIdentifier('$'), name)
const call = (name, ...args) => f.createCallExpression($(name), undefined, args)
const str = s => f.createStringLiteral(s)
const TMP = '$v'

const BIN = new Map([
	[K.PlusToken, '+'],
	[K.MinusToken, '-'],
	[K.AsteriskToken, '*'],
	[K.SlashToken, '/'],
	[K.PercentToken, '%'],
	[K.AsteriskAsteriskToken, '**'],
	[K.AmpersandToken, '&'],
	[K.BarToken, '|'],
	[K.CaretToken, '^'],
	[K.LessThanLessThanToken, '<<'],
	[K.GreaterThanGreaterThanToken, '>>'],
	[K.GreaterThanGreaterThanGreaterThanToken, '>>>']
])
const CMP = new Map([
	[K.LessThanToken, 'lt'],
	[K.GreaterThanToken, 'gt'],
	[K.LessThanEqualsToken, 'le'],
	[K.GreaterThanEqualsToken, 'ge'],
	[K.EqualsEqualsEqualsToken, 'seq'],
	[K.ExclamationEqualsEqualsToken, 'sne'],
	[K.EqualsEqualsToken, 'leq'],
	[K.ExclamationEqualsToken, 'lne'],
	[K.InstanceOfKeyword, 'inst'],
	[K.InKeyword, 'has']
])
const ASG = new Map([
	[K.PlusEqualsToken, '+'],
	[K.MinusEqualsToken, '-'],
	[K.AsteriskEqualsToken, '*'],
	[K.SlashEqualsToken, '/'],
	[K.PercentEqualsToken, '%'],
	[K.AsteriskAsteriskEqualsToken, '**'],
	[K.AmpersandEqualsToken, '&'],
	[K.BarEqualsToken, '|'],
	[K.CaretEqualsToken, '^'],
	[K.LessThanLessThanEqualsToken, '<<'],
	[K.GreaterThanGreaterThanEqualsToken, '>>'],
	[K.GreaterThanGreaterThanGreaterThanEqualsToken, '>>>']
])

const unparen = n => {
	while (ts.isParenthesizedExpression(n)) n = n.expression
	return n
}
const isLiteralish = n =>
	ts.isStringLiteral(n) || ts.isNumericLiteral(n) || n.kind === K.NullKeyword || n.kind === K.TrueKeyword || n.kind === K.FalseKeyword
const isSuper = n => n.kind === K.SuperKeyword

export function instrument(code, { countFns = true } = {}) {
	const sf = ts.createSourceFile('bundle.js', code, ts.ScriptTarget.ESNext, true, ts.ScriptKind.JS)
	let sw = 0
	const out = ts.transform(sf, [
		ctx => {
			const kids = n => ts.visitEachChild(n, visit, ctx)
			const V = n => ts.visitNode(n, visit)
			const keyOf = n => (ts.isPropertyAccessExpression(n) ? str(n.name.text) : V(n.argumentExpression))
			const isMember = n =>
				(ts.isPropertyAccessExpression(n) && !ts.isPrivateIdentifier(n.name) && !isSuper(n.expression)) ||
				(ts.isElementAccessExpression(n) && !isSuper(n.expression))
			/** expression in a boolean context */
			function test(n) {
				const u = unparen(n)
				if (ts.isBinaryExpression(u)) {
					const op = u.operatorToken.kind
					if (op === K.AmpersandAmpersandToken || op === K.BarBarToken)
						return f.createParenthesizedExpression(f.createBinaryExpression(test(u.left), op, test(u.right)))
					if (CMP.has(op)) return V(u)
				}
				if (ts.isPrefixUnaryExpression(u) && u.operator === K.ExclamationToken)
					return f.createPrefixUnaryExpression(K.ExclamationToken, test(u.operand))
				if (u.kind === K.TrueKeyword || u.kind === K.FalseKeyword) return u
				return call('t', V(u))
			}
			const block = st => (ts.isBlock(st) ? st : f.createBlock([st], true))
			const loopBody = st => {
				const b = block(V(st))
				return f.updateBlock(b, [f.createExpressionStatement(call('loop')), ...b.statements])
			}
			const args = as => f.createArrayLiteralExpression(as.map(a => (ts.isSpreadElement(a) ? V(a) : V(a))))
			function visit(n) {
				switch (n.kind) {
					case K.ParenthesizedExpression:
						return f.createParenthesizedExpression(V(n.expression))
					case K.IfStatement:
						return f.updateIfStatement(n, test(n.expression), V(n.thenStatement), V(n.elseStatement))
					case K.ConditionalExpression:
						return f.createParenthesizedExpression(
							f.createConditionalExpression(
								test(n.condition),
								undefined,
								f.createParenthesizedExpression(V(n.whenTrue)),
								undefined,
								f.createParenthesizedExpression(V(n.whenFalse))
							)
						)
					case K.WhileStatement:
						return f.createWhileStatement(test(n.expression), loopBody(n.statement))
					case K.DoStatement:
						return f.createDoStatement(loopBody(n.statement), test(n.expression))
					case K.ForStatement:
						return f.createForStatement(
							V(n.initializer),
							n.condition && test(n.condition),
							V(n.incrementor),
							loopBody(n.statement)
						)
					case K.ForOfStatement:
						return f.createForOfStatement(
							n.awaitModifier,
							forInit(n.initializer),
							call('iter', V(n.expression)),
							loopBody(n.statement)
						)
					case K.ForInStatement:
						return f.createForInStatement(forInit(n.initializer), call('plain', V(n.expression)), loopBody(n.statement))
					case K.SwitchStatement: {
						const id = `$s${sw++}`
						const clauses = n.caseBlock.clauses.map(c =>
							ts.isCaseClause(c)
								? f.createCaseClause(call('seq', f.createIdentifier(id), V(c.expression)), c.statements.map(V))
								: f.createDefaultClause(c.statements.map(V))
						)
						return f.createBlock(
							[
								f.createVariableStatement(
									undefined,
									f.createVariableDeclarationList([f.createVariableDeclaration(id, undefined, undefined, V(n.expression))], ts.NodeFlags.Const)
								),
								f.createSwitchStatement(f.createTrue(), f.createCaseBlock(clauses))
							],
							true
						)
					}
					case K.LabeledStatement:
						return kids(n)
					case K.PrefixUnaryExpression: {
						const op = n.operator
						if (op === K.ExclamationToken) return f.createPrefixUnaryExpression(op, test(n.operand))
						if (op === K.PlusPlusToken || op === K.MinusMinusToken) {
							const u = unparen(n.operand)
							if (isMember(u)) return call('upd', V(u.expression), keyOf(u), f.createNumericLiteral(op === K.PlusPlusToken ? 1 : 2), f.createTrue())
							return n
						}
						if (isLiteralish(unparen(n.operand))) return n
						return call('un', str(op === K.MinusToken ? '-' : op === K.PlusToken ? '+' : '~'), V(n.operand))
					}
					case K.PostfixUnaryExpression: {
						const u = unparen(n.operand)
						if (isMember(u))
							return call('upd', V(u.expression), keyOf(u), f.createNumericLiteral(n.operator === K.PlusPlusToken ? 1 : 2), f.createFalse())
						return n
					}
					case K.TypeOfExpression: {
						const u = unparen(n.expression)
						if (ts.isIdentifier(u))
							return f.createParenthesizedExpression(
								f.createConditionalExpression(
									f.createBinaryExpression(f.createTypeOfExpression(u), K.EqualsEqualsEqualsToken, str('undefined')),
									undefined,
									str('undefined'),
									undefined,
									call('typeof', u)
								)
							)
						return call('typeof', V(n.expression))
					}
					case K.DeleteExpression: {
						const u = unparen(n.expression)
						if (isMember(u)) return call('del', V(u.expression), keyOf(u))
						return kids(n)
					}
					case K.BinaryExpression: {
						const op = n.operatorToken.kind
						if (op === K.AmpersandAmpersandToken)
							return f.createParenthesizedExpression(
								f.createConditionalExpression(
									call('t', f.createAssignment(f.createIdentifier(TMP), V(n.left))),
									undefined,
									f.createParenthesizedExpression(V(n.right)),
									undefined,
									f.createIdentifier(TMP)
								)
							)
						if (op === K.BarBarToken)
							return f.createParenthesizedExpression(
								f.createConditionalExpression(
									call('t', f.createAssignment(f.createIdentifier(TMP), V(n.left))),
									undefined,
									f.createIdentifier(TMP),
									undefined,
									f.createParenthesizedExpression(V(n.right))
								)
							)
						if (BIN.has(op)) {
							return call('bin', str(BIN.get(op)), V(n.left), V(n.right))
						}
						if (CMP.has(op)) {
							if (op === K.InKeyword && ts.isPrivateIdentifier(n.left)) return kids(n)
							return call(CMP.get(op), V(n.left), V(n.right))
						}
						if (op === K.EqualsToken) {
							const u = unparen(n.left)
							if (isMember(u)) return call('set', V(u.expression), keyOf(u), V(n.right))
							if (ts.isIdentifier(u)) return f.createParenthesizedExpression(f.createAssignment(u, V(n.right)))
							if (ts.isObjectLiteralExpression(u) || ts.isArrayLiteralExpression(u))
								return f.createParenthesizedExpression(
									f.createAssignment(u, ts.isArrayLiteralExpression(u) ? call('iter', V(n.right)) : V(n.right))
								)
							return kids(n)
						}
						if (ASG.has(op)) {
							const u = unparen(n.left)
							if (isMember(u)) return call('cset', V(u.expression), keyOf(u), str(ASG.get(op)), V(n.right))
							if (ts.isIdentifier(u))
								return f.createParenthesizedExpression(f.createAssignment(u, call('bin', str(ASG.get(op)), u, V(n.right))))
							return kids(n)
						}
						return kids(n) // comma
					}
					case K.PropertyAccessExpression:
					case K.ElementAccessExpression:
						if (isMember(n)) return call('get', V(n.expression), keyOf(n))
						return kids(n)
					case K.CallExpression: {
						const c = unparen(n.expression)
						if (isSuper(c) || c.kind === K.ImportKeyword) return kids(n)
						if (isMember(c)) {
							// console etc. stay native
							return call('m', V(c.expression), keyOf(c), args(n.arguments))
						}
						if (ts.isPropertyAccessExpression(c) || ts.isElementAccessExpression(c)) return kids(n)
						if (ts.isIdentifier(c) && c.text === '$') return kids(n)
						return call('c', V(n.expression), f.createVoidZero(), args(n.arguments))
					}
					case K.NewExpression:
						return call('new', V(n.expression), args(n.arguments ?? []))
					case K.SpreadElement:
						return f.createSpreadElement(call('iter', V(n.expression)))
					case K.ObjectLiteralExpression:
						return objLit(n)
					case K.VariableDeclaration: {
						if (!n.initializer) return n
						if (ts.isObjectBindingPattern(n.name) && n.name.elements.some(e => e.dotDotDotToken || (e.propertyName && ts.isComputedPropertyName(e.propertyName)))) {
							// const { [k]: x = d, y } = o  =>  $d = o, $dx = $.get($d, k), x = $dx === void 0 ? d : $dx, { y } = $.destr($d)
							const declare = (name, v) => f.createVariableDeclaration(name, undefined, undefined, v)
							const o = `$d${sw++}`
							const ds = [declare(o, V(n.initializer))]
							const taken = []
							for (const e of n.name.elements) {
								if (e.dotDotDotToken) {
									ds.push(declare(e.name, call('rest', f.createIdentifier(o), f.createArrayLiteralExpression(taken))))
									continue
								}
								const literal = e.propertyName ?? e.name
								if (ts.isIdentifier(literal) || ts.isStringLiteral(literal) || ts.isNumericLiteral(literal)) taken.push(str(literal.text))
								if (!e.propertyName || !ts.isComputedPropertyName(e.propertyName)) {
									const p = f.createObjectBindingPattern([e])
									ds.push(declare(kids(p), call('destr', f.createIdentifier(o), bindKeys(p))))
									continue
								}
								const [kn, t] = [`$d${sw++}`, `$d${sw++}`]
								taken.push(f.createIdentifier(kn))
								ds.push(declare(kn, V(e.propertyName.expression)))
								ds.push(declare(t, call('get', f.createIdentifier(o), f.createIdentifier(kn))))
								let v = f.createIdentifier(t)
								if (e.initializer)
									v = f.createConditionalExpression(f.createBinaryExpression(v, K.EqualsEqualsEqualsToken, f.createVoidZero()), undefined, V(e.initializer), undefined, v)
								if (ts.isIdentifier(e.name)) ds.push(declare(e.name, v))
								else if (ts.isArrayBindingPattern(e.name)) ds.push(declare(kids(e.name), call('iter', v)))
								else ds.push(declare(kids(e.name), call('destr', v, bindKeys(e.name))))
							}
							return ds
						}
						if (ts.isObjectBindingPattern(n.name))
							return f.updateVariableDeclaration(n, kids(n.name), undefined, undefined, call('destr', V(n.initializer), bindKeys(n.name)))
						if (ts.isArrayBindingPattern(n.name))
							return f.updateVariableDeclaration(n, kids(n.name), undefined, undefined, call('iter', V(n.initializer)))
						return kids(n)
					}
					case K.FunctionDeclaration:
					case K.FunctionExpression:
					case K.ArrowFunction:
					case K.MethodDeclaration:
						return kids(n)
					case K.TaggedTemplateExpression:
						return kids(n)
					case K.TemplateExpression:
						return f.createParenthesizedExpression(kids(n))
				}
				return kids(n)
			}
			function forInit(i) {
				if (ts.isVariableDeclarationList(i)) return kids(i)
				return i
			}
			function bindKeys(p) {
				return f.createArrayLiteralExpression(
					p.elements.some(e => e.dotDotDotToken)
						? []
						: p.elements.map(e => {
								const k = e.propertyName ?? e.name
								if (ts.isComputedPropertyName(k)) return f.createNull()
								return str(k.text ?? '')
							})
				)
			}
			function objLit(n) {
				let special = false
				for (const p of n.properties) {
					if (ts.isSpreadAssignment(p)) special = true
					else if (p.name && ts.isComputedPropertyName(p.name)) special = true
				}
				if (!special) return kids(n)
				// everything up to the first special member stays a literal
				let base = []
				let i = 0
				const isSpecial = p => ts.isSpreadAssignment(p) || (p.name && ts.isComputedPropertyName(p.name))
				while (i < n.properties.length && !isSpecial(n.properties[i])) base.push(V(n.properties[i++]))
				let e = f.createObjectLiteralExpression(base)
				for (; i < n.properties.length; i++) {
					const p = n.properties[i]
					if (ts.isSpreadAssignment(p)) e = call('spread', e, V(p.expression))
					else if (ts.isPropertyAssignment(p))
						e = call('def', e, ts.isComputedPropertyName(p.name) ? V(p.name.expression) : str(p.name.text), V(p.initializer))
					else if (ts.isShorthandPropertyAssignment(p)) e = call('def', e, str(p.name.text), f.createIdentifier(p.name.text))
					else {
						// method / accessor: build it in a literal of its own and copy the descriptor
						e = call('defd', e, f.createObjectLiteralExpression([V(p)]))
					}
				}
				return e
			}
			return root => ts.visitNode(root, visit)
		}
	])
	const printed = ts.createPrinter({ removeComments: true }).printFile(out.transformed[0])
	return printed
}
