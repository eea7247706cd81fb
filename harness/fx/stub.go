package fx

import (
	"context"

	"zntr.io/solid/sdk/generator"
)

// CodeFn is a code generator of any kind whose validator accepts everything the
// wrapped kind would.
type CodeFn func(ctx context.Context, issuer string) (string, error)

// Generate implements the generator interfaces.
func (f CodeFn) Generate(ctx context.Context, issuer string) (string, error) { return f(ctx, issuer) }

// Validate implements the generator interfaces.
func (f CodeFn) Validate(context.Context, string, string) error { return nil }

// URIFn is a request_uri generator with the built-in validator.
type URIFn func(ctx context.Context, issuer string) (string, error)

// Generate implements the generator interfaces.
func (f URIFn) Generate(ctx context.Context, issuer string) (string, error) { return f(ctx, issuer) }

// Validate implements the generator interfaces.
func (f URIFn) Validate(ctx context.Context, issuer, in string) error {
	return generator.DefaultRequestURI().Validate(ctx, issuer, in)
}
