"""Class and function contracts (optional summaries used in place of inlining)."""
