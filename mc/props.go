package main

func buildProps() {
	setPrefixes()
	buildDelegation()
	buildBundles()
	buildFunders()
	buildStakers()
	buildProfiles()
	buildPools()
	buildTeam()
	buildGlobal()
	buildGov()
	buildCustody()
	buildEvents()
	buildHalt()
	buildRestart()
	buildGenesis()
	buildQueries()
	buildUpgrade()
}

