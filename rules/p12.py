from rules.layout import p12 as check  # noqa
