package zsuites

import "github.com/madkins23/go-slog/internal/zcore"

// Props of the suites binary.
var Props = []*zcore.Prop{replaceProp, creatorProp, benchProp, verifyProp, fieldProp, resultsProp}
