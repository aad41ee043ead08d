"""level_note of every check."""
NOTES = {
    "default": "The specification is model-checked within small bounds; the code is bound to it by executing scenarios that TLC generates and validating every recorded step with TLC. Assurance for the code extends to the executed scenarios.",
}
