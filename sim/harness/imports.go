package main

import (
	cliMain "github.com/si-co/vpir-code/cmd/grpc/client"
	interMain "github.com/si-co/vpir-code/cmd/grpc/client/interactive"
	webMain "github.com/si-co/vpir-code/cmd/grpc/client/web"
	srvMain "github.com/si-co/vpir-code/cmd/grpc/server"
	dataMain "github.com/si-co/vpir-code/data"
	mcliMain "github.com/si-co/vpir-code/simulations/multi/client"
	msrvMain "github.com/si-co/vpir-code/simulations/multi/server"
)

// the programs of the repository, run under the simulator as they are
var (
	mainCLI    = cliMain.ZZMain
	mainServer = srvMain.ZZMain
	mainInter  = interMain.ZZMain
	mainWeb    = webMain.ZZMain
	mainData   = dataMain.ZZMain
	mainMCli   = mcliMain.ZZMain
	mainMSrv   = msrvMain.ZZMain
)
