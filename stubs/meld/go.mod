module snqk.dev/slog/meld

go 1.22
