let a =<< EOS
hello
 world
EOS
let a =<< trim EOS
	hello
world
EOS
let a =<< EOS
EOS
