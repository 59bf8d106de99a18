package props

import "context"

func contextWith(ctx context.Context, k, v any) context.Context { return context.WithValue(ctx, k, v) }
