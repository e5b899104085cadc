package kit

import "syscall"

const sigquit = syscall.SIGQUIT
