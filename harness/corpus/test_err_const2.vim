let a = {}
const a["b"] = 1
