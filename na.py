"""Properties that are not claimed."""
NA = {}
