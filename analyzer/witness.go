package main

func runWitnesses(c *Ctx, ck *Check, repo, verif string) {}
