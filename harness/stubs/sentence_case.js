// word splitting of the third-party package: an uninterpreted function of its argument
export const sentenceCase = s => S.fn('sentence', s)
