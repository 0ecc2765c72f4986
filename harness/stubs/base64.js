// base64 of UTF-8: an uninterpreted injective function with `decode` as its left inverse
export const encode = s => S.fn('enc', s)
export const decode = s => S.fn('dec', s)
export const toBase64 = encode
export const fromBase64 = decode
export const Base64 = { encode, decode, toBase64, fromBase64 }
export default Base64
