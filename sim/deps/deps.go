// Package deps names what the library under simulation needs.
package deps

import (
	_ "github.com/bytedance/mockey"
	_ "github.com/smartystreets/goconvey/convey"
)
