package harness

import "context"

var ctxBg = context.Background()

type ctxT = context.Context
