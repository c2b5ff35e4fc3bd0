"""Static analysis of rt1_model: abstract interpretation of its source with value numbering."""
