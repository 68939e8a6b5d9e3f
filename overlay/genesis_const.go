package config

const genesisJson = `{}`
