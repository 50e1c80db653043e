"""Check that what the checks need is there, and build the extractor once."""
import os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('verus', 'cargo', 'git'):
    if not shutil.which(t): sys.exit(f'{t} is missing')
env = dict(os.environ, CARGO_TARGET_DIR=H + '/build/target-vx', CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='1.90.0')
sys.exit(subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=H + '/rs/vx', env=env).returncode)
