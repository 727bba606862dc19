"""rsa: repo-specific static analysis for rubin_sim (AST based, never imports it)."""
