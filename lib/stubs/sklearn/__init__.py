"""Stand-in for scikit-learn (not installable here); librosa only imports it."""
