// the user-agent sniffing package: whatever the harness declares the platform to be
const os = { get family() { return S.platformFamily } }
export { os }
export default { os }
