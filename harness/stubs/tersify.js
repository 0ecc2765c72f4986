// formatting for log output only
export const tersify = () => '<tersify>'
export default tersify
