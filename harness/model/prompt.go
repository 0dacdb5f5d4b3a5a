package model

import "github.com/Songmu/prompter"

// A user who enters the same answer each time.

//verif:model (*github.com/Songmu/prompter.Prompter).Prompt
func prompt(p *prompter.Prompter) string { return "Entered#Secret9!" }
