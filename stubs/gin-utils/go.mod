module github.com/madkins23/gin-utils

go 1.18

require github.com/gin-gonic/gin v1.9.1
