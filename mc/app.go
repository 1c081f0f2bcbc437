package main

// Construction of a real KYVE application (the code under test) with a small
// deterministic genesis.  Nothing here is a model: every explored transition
// runs through the application's own message router, keepers and block hooks.

import (
	"encoding/json"
	"fmt"
	"time"

	"cosmossdk.io/log"
	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/address"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"

	"github.com/KYVENetwork/chain/app"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

const (
	ADENOM    = "acoin"
	BDENOM    = "bcoin"
	CDENOM    = "ccoin"
	T0        = int64(1_700_000_000)
	K         = uint64(1_000_000_000)
	chainID   = "kyve-test"
	startBal  = uint64(1_000_000) * K
	genHeight = int64(1)
)

var DENOM = globaltypes.Denom

// deterministic account universe --------------------------------------------

func mkAddr(name string) string {
	return sdk.AccAddress(address.Hash("verif", []byte(name))[:20]).String()
}

var (
	addrOf  = map[string]string{} // label -> bech32
	labelOf = map[string]string{} // bech32 -> label
)

func acc(label string) string {
	if a, ok := addrOf[label]; ok {
		return a
	}
	a := mkAddr(label)
	addrOf[label] = a
	labelOf[a] = label
	return a
}

func modAddr(name string) string { return authtypes.NewModuleAddress(name).String() }

// lab prints an address by its label
func lab(a string) string {
	if l, ok := labelOf[a]; ok {
		return l
	}
	return a
}

func govAddr() string { return modAddr(govtypes.ModuleName) }

func setPrefixes() {
	c := sdk.GetConfig()
	if c.GetBech32AccountAddrPrefix() == app.AccountAddressPrefix {
		return
	}
	p := app.AccountAddressPrefix
	c.SetBech32PrefixForAccount(p, p+"pub")
	c.SetBech32PrefixForValidator(p+"valoper", p+"valoperpub")
	c.SetBech32PrefixForConsensusNode(p+"valcons", p+"valconspub")
	c.Seal()
}

// Env is one running application together with the base context a scenario
// starts from.
type Env struct {
	App  *app.App
	Base sdk.Context // writable context holding the scenario's initial state
	Sc   *Scenario
	Feat Features // which parts of the state snapshots contain
	Wrk  any      // scenario private data
}

// Genesis knobs.
type GenCfg struct {
	Funded    map[string]sdk.Coins // label -> initial balance
	Inflation bool                 // minting on?
	Modify    func(a *app.App, gs map[string]json.RawMessage)
	InitTime  int64
	DB        dbm.DB
}

func coin(d string, a uint64) sdk.Coin { return sdk.NewCoin(d, math.NewIntFromUint64(a)) }
func kyve(a uint64) sdk.Coins          { return sdk.NewCoins(coin(DENOM, a)) }

func newAppOn(db dbm.DB) (*app.App, error) {
	setPrefixes()
	return app.New(log.NewNopLogger(), db, nil, true, app.EmptyAppOptions{}, baseapp.SetChainID(chainID))
}

func consKey() *ed25519.PrivKey { return ed25519.GenPrivKeyFromSecret([]byte("verif-validator")) }

func newApp(cfg GenCfg) (*app.App, sdk.Context) {
	db := cfg.DB
	if db == nil {
		db = dbm.NewMemDB()
	}
	a, err := newAppOn(db)
	if err != nil {
		panic(err)
	}
	gs := genesisState(a, cfg)
	initChain(a, gs, cfg)
	return a, a.BaseApp.NewUncachedContext(false, headerAt(genHeight, initTime(cfg)))
}

func initTime(cfg GenCfg) int64 {
	if cfg.InitTime != 0 {
		return cfg.InitTime
	}
	return T0
}

func headerAt(h int64, t int64) tmproto.Header {
	return tmproto.Header{
		ChainID: chainID, Height: h, Time: time.Unix(t, 0).UTC(),
		ProposerAddress: consKey().PubKey().Address().Bytes(),
	}
}

func genesisState(a *app.App, cfg GenCfg) map[string]json.RawMessage {
	cdc := a.AppCodec()
	pub := consKey().PubKey()
	valAddr := sdk.ValAddress(pub.Address()).String()
	pkAny, err := codectypes.NewAnyWithValue(pub)
	if err != nil {
		panic(err)
	}
	delPriv := secp256k1.GenPrivKeyFromSecret([]byte("verif-chain-delegator"))
	delegator := authtypes.NewBaseAccount(sdk.AccAddress(delPriv.PubKey().Address()), nil, 0, 0)
	labelOf[delegator.GetAddress().String()] = "chaindelegator"

	gs := a.DefaultGenesis()

	accs := []authtypes.GenesisAccount{delegator}
	bonded := sdk.NewCoins(sdk.NewCoin(DENOM, sdk.DefaultPowerReduction))
	team := sdk.NewCoins(coin(DENOM, teamtypes.TEAM_ALLOCATION))
	bals := []banktypes.Balance{
		{Address: modAddr(stakingtypes.BondedPoolName), Coins: bonded},
		{Address: modAddr(teamtypes.ModuleName), Coins: team},
	}
	total := bonded.Add(team...)
	i := uint64(1)
	for _, label := range sortedKeys(cfg.Funded) {
		ad := sdk.MustAccAddressFromBech32(acc(label))
		accs = append(accs, authtypes.NewBaseAccount(ad, nil, i, 0))
		i++
		c := cfg.Funded[label]
		if !c.IsZero() {
			bals = append(bals, banktypes.Balance{Address: acc(label), Coins: c})
			total = total.Add(c...)
		}
	}
	authP := authtypes.DefaultParams()
	gs[authtypes.ModuleName] = cdc.MustMarshalJSON(authtypes.NewGenesisState(authP, accs))
	gs[banktypes.ModuleName] = cdc.MustMarshalJSON(banktypes.NewGenesisState(banktypes.DefaultParams(), bals, total, nil, nil))

	sp := stakingtypes.DefaultParams()
	sp.BondDenom = DENOM
	val := stakingtypes.Validator{
		OperatorAddress: valAddr, ConsensusPubkey: pkAny, Status: stakingtypes.Bonded,
		Tokens: sdk.DefaultPowerReduction, DelegatorShares: math.LegacyOneDec(),
		UnbondingTime:     time.Unix(0, 0).UTC(),
		Commission:        stakingtypes.NewCommission(math.LegacyZeroDec(), math.LegacyZeroDec(), math.LegacyZeroDec()),
		MinSelfDelegation: math.ZeroInt(),
	}
	del := stakingtypes.NewDelegation(delegator.GetAddress().String(), valAddr, math.LegacyOneDec())
	gs[stakingtypes.ModuleName] = cdc.MustMarshalJSON(stakingtypes.NewGenesisState(sp, []stakingtypes.Validator{val}, []stakingtypes.Delegation{del}))

	mp := minttypes.DefaultParams()
	mp.MintDenom = DENOM
	minter := minttypes.DefaultInitialMinter()
	if !cfg.Inflation {
		mp.InflationMax = math.LegacyZeroDec()
		mp.InflationMin = math.LegacyZeroDec()
		mp.InflationRateChange = math.LegacyZeroDec()
		minter.Inflation = math.LegacyZeroDec()
	}
	gs[minttypes.ModuleName] = cdc.MustMarshalJSON(minttypes.NewGenesisState(minter, mp))

	var gg govv1.GenesisState
	cdc.MustUnmarshalJSON(gs[govtypes.ModuleName], &gg)
	gg.Params.MinDeposit = kyve(100 * K)
	gg.Params.ExpeditedMinDeposit = kyve(200 * K)
	gs[govtypes.ModuleName] = cdc.MustMarshalJSON(&gg)

	if cfg.Modify != nil {
		cfg.Modify(a, gs)
	}
	return gs
}

func initChain(a *app.App, gs map[string]json.RawMessage, cfg GenCfg) {
	initChainOnly(a, gs, cfg)
	// one real block so that the genesis state is committed
	if _, err := a.FinalizeBlock(&abci.RequestFinalizeBlock{Height: 1, Time: time.Unix(initTime(cfg), 0).UTC(), ProposerAddress: consKey().PubKey().Address()}); err != nil {
		panic(fmt.Errorf("block 1: %w", err))
	}
	if _, err := a.Commit(); err != nil {
		panic(err)
	}
}

func initChainOnly(a *app.App, gs map[string]json.RawMessage, cfg GenCfg) {
	bz, err := json.Marshal(gs)
	if err != nil {
		panic(err)
	}
	if _, err = a.InitChain(&abci.RequestInitChain{
		ChainId: chainID, ConsensusParams: app.DefaultConsensusParams, AppStateBytes: bz,
		Time: time.Unix(initTime(cfg), 0).UTC(), InitialHeight: 1,
	}); err != nil {
		panic(fmt.Errorf("initchain: %w", err))
	}
}
