package main

import (
	_ "github.com/liliang-cn/cortexdb/v2/internal/vmc/checks"
	"github.com/liliang-cn/cortexdb/v2/internal/vmc/vk"
)

func main() { vk.Main() }
