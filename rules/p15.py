from rules.config import p15 as check  # noqa
